/* The LZMA reader between the chunks and liblzma: each byte of the chunks
   is given to the decoder once and in order, each byte the decoder makes is
   passed on once and in order, nothing leaks. VG_CASE 0 to 3: reading, without
   or with input (1) and output (2) kept; 4: the end.

   liblzma is assumed: lzma_code() takes bytes from the front of next_in and
   puts bytes to the front of next_out, any number of them, and returns any
   code; lzma_end() releases what lzma_alone_decoder() allocated. */
#include "/repo/c/detools.h"
#include "vg.h"
#include "readers_init.h"

static struct detools_apply_patch_patch_reader_t r;
static struct detools_apply_patch_chunk_t chunk;
#define LZ (r.compression.lzma)

/* Witness byte of the input: how far it is ahead of the next byte the
   decoder takes. It is in the input kept, in the chunk, or later. */
static size_t g_in;
static bool g_in_taken;
/* Witness byte of the output: how far it is behind the next byte to be
   passed on. Known once the decoder made it. */
static size_t g_out;
static bool g_out_made;
static bool g_failed;
static int g_ended;

/* Where the witness bytes are: contents are not stored, copying moves the
   witnesses (memcpy() and memmove() by their definition). */
static const uint8_t *g_in_at;
static const uint8_t *g_out_at;
static const uint8_t *g_passed_at;
static uint8_t *g_buf_p;

#define LZ_IN_RANGE(at, p, n)                                            \
    (__CPROVER_same_object(at, p)                                        \
     && __CPROVER_POINTER_OFFSET(at) >= __CPROVER_POINTER_OFFSET(p)      \
     && __CPROVER_POINTER_OFFSET(at) - __CPROVER_POINTER_OFFSET(p) < (n))

static void vg_copy(void *dst_p, const void *src_p, size_t n)
{
    const uint8_t *in;
    const uint8_t *out;

    if (n == 0) {
        return;
    }

    VG_ASSERT(__CPROVER_r_ok(src_p, n), "what is copied is inside its object");
    VG_ASSERT(__CPROVER_w_ok(dst_p, n), "what is copied has room");
    in = g_in_at;
    out = g_out_at;

    if (LZ_IN_RANGE(in, src_p, n)) {
        g_in_at = (uint8_t *)dst_p + (in - (const uint8_t *)src_p);
    } else if (LZ_IN_RANGE(in, dst_p, n)) {
        g_in_at = NULL;
    }

    if (__CPROVER_same_object(dst_p, g_buf_p)) {
        if (LZ_IN_RANGE(out, src_p, n)) {
            g_passed_at = (uint8_t *)dst_p + (out - (const uint8_t *)src_p);
        } else if (LZ_IN_RANGE(g_passed_at, dst_p, n)) {
            g_passed_at = NULL;
        }
    } else {
        if (LZ_IN_RANGE(out, src_p, n)) {
            g_out_at = (uint8_t *)dst_p + (out - (const uint8_t *)src_p);
        } else if (LZ_IN_RANGE(out, dst_p, n)) {
            g_out_at = NULL;
        }
    }
}

void *vg_memcpy(void *dst_p, const void *src_p, size_t n)
{
    VG_ASSERT(n == 0 || !__CPROVER_same_object(dst_p, src_p), "copied between objects");
    vg_copy(dst_p, src_p, n);

    return (dst_p);
}

void *vg_memmove(void *dst_p, const void *src_p, size_t n)
{
    vg_copy(dst_p, src_p, n);

    return (dst_p);
}

#define LZ_IN_REL                                                        \
    (g_in_taken                                                          \
     || g_in >= LZ.stream.avail_in + (chunk.size - chunk.offset)         \
     || (g_in < LZ.stream.avail_in                                       \
         ? g_in_at == LZ.stream.next_in + g_in                           \
         : g_in_at == chunk.buf_p + chunk.offset + (g_in - LZ.stream.avail_in)))
#define LZ_OUT_REL                                                       \
    (g_out_made == (g_out < LZ.output_size)                              \
     && (!g_out_made || g_out_at == LZ.output_p + g_out))

lzma_ret lzma_code(lzma_stream *s, lzma_action action)
{
    size_t taken;
    size_t made;
    size_t at;
    lzma_ret ret;

    VG_ASSERT(s == &LZ.stream && g_ended == 0, "the decoder is running");
    VG_ASSERT(action == LZMA_RUN, "more input may follow");
    VG_ASSERT(!g_failed, "nothing is decoded after a failure");
    VG_ASSERT(s->avail_in == 0 || __CPROVER_r_ok(s->next_in, s->avail_in), "input is valid");
    VG_ASSERT(s->avail_out == 0 || __CPROVER_w_ok(s->next_out, s->avail_out),
              "room for output is valid");
    VG_ASSERT(s->next_out == LZ.output_p + LZ.output_size,
              "output goes behind the output kept");
    VG_ASSUME(taken <= s->avail_in && made <= s->avail_out);

    if (!g_in_taken) {
        if (g_in < taken) {
            VG_ASSERT(g_in_at == s->next_in + g_in,
                      "the decoder is given the bytes of the patch in order");
            g_in_taken = true;
        } else {
            g_in -= taken;
        }
    }

    if (!g_out_made && g_out < LZ.output_size + made) {
        at = g_out - LZ.output_size;
        g_out_made = true;
        g_out_at = s->next_out + at;
    }

    s->next_in += taken;
    s->avail_in -= taken;
    s->next_out += made;
    s->avail_out -= made;

    if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
        g_failed = true;
    }

    return (ret);
}

void lzma_end(lzma_stream *s)
{
    VG_ASSERT(s == &LZ.stream, "the decoder is released");
    g_ended++;
}

#define memcpy vg_memcpy
#define memmove vg_memmove
#include "/repo/c/detools.c"

void harness(void)
{
    uint8_t *in_p;
    uint8_t *kept_p;
    uint8_t *out_p;
    uint8_t *old_p;
    size_t asked;
    size_t asked0;
    size_t used;
    size_t cap;
    size_t out_size;
    size_t chunk0;
    bool has_in;
    bool has_out;
    int res;

#if VG_CASE != 4
    has_in = (VG_CASE & 1);
    has_out = (VG_CASE & 2);
#endif

    __CPROVER_havoc_object(&r);
    __CPROVER_havoc_object(&chunk);
    r.patch_chunk_p = &chunk;
    __CPROVER_havoc_object(&g_in);
    __CPROVER_havoc_object(&g_in_taken);
    __CPROVER_havoc_object(&g_out);
    __CPROVER_havoc_object(&g_out_made);

    if (has_in) {
        /* avail_in bytes at the end of the buffer kept */
        VG_ASSUME(cap >= 1 && cap <= LZ_MAX && used <= cap);
        kept_p = malloc(cap);
        VG_ASSUME(kept_p != NULL);
        LZ.input_p = kept_p;
        LZ.stream.next_in = kept_p + used;
        LZ.stream.avail_in = cap - used;
    } else {
        LZ.input_p = NULL;
        LZ.stream.next_in = NULL;
        LZ.stream.avail_in = 0;
    }

    if (has_out) {
        VG_ASSUME(out_size >= 1 && out_size <= 128 && LZ.output_size <= out_size);
        old_p = malloc(out_size);
        VG_ASSUME(old_p != NULL);
        LZ.output_p = old_p;
    } else {
        LZ.output_p = NULL;
        LZ.output_size = 0;
    }
#if VG_CASE != 4
    VG_ASSUME(chunk.size <= LZ_MAX && chunk.offset <= chunk.size);
    in_p = malloc(chunk.size);
    VG_ASSUME(in_p != NULL);
    chunk.buf_p = in_p;

    if (!g_in_taken && g_in < LZ.stream.avail_in) {
        g_in_at = LZ.stream.next_in + g_in;
    } else if (!g_in_taken
               && g_in - LZ.stream.avail_in < chunk.size - chunk.offset) {
        g_in_at = chunk.buf_p + chunk.offset + (g_in - LZ.stream.avail_in);
    }

    g_out_made = (g_out < LZ.output_size);

    if (g_out_made) {
        g_out_at = LZ.output_p + g_out;
    }

    VG_ASSUME(LZ_IN_REL && LZ_OUT_REL);
    VG_ASSUME(g_in <= 4 * LZ_MAX && g_out <= 4 * LZ_MAX);
    /* a failed reader is not used again */
    asked0 = asked;
    VG_ASSUME(asked >= 1 && asked <= 128);
    out_p = malloc(asked);
    VG_ASSUME(out_p != NULL);
    g_buf_p = out_p;
    /* output kept: what the last request could not use (unit seq_step asks
       for one byte, or for as much as there is room for) */
    chunk0 = chunk.offset;
    res = patch_reader_lzma_decompress(&r, out_p, &asked);
    VG_ASSERT(asked == asked0, "all that was asked for or nothing");
    VG_ASSERT(chunk.offset <= chunk.size && chunk.offset >= chunk0, "chunk");

    if (res == 0) {
        VG_COVER("bytes");

        if (g_out < asked) {
            VG_ASSERT(g_out_made && g_passed_at == out_p + g_out,
                      "the bytes the decoder made are passed on in order");
        } else {
            g_out -= asked;
            VG_ASSERT(LZ_OUT_REL, "output kept is what was made and not passed on");
        }
    } else if (res == 1) {
        VG_COVER("more input");
        VG_ASSERT(chunk.offset == chunk.size, "more is asked for only when there is none");
        VG_ASSERT(!g_failed, "a decoder that failed is reported");
    } else {
        VG_COVER("failed");
        VG_ASSERT(res == (g_failed ? -DETOOLS_LZMA_DECODE : -DETOOLS_OUT_OF_MEMORY),
                  "a failure is reported as what it is");
    }
    VG_ASSERT(res != 0 || !g_failed, "a decoder that failed is reported");

    if (res >= 0) {
        VG_ASSERT(res == 0 || LZ_OUT_REL, "output kept is what was made and not passed on");
        VG_ASSERT(LZ_IN_REL, "input kept is what was not taken");
        VG_ASSERT(LZ.stream.avail_in == 0
                  || (__CPROVER_same_object(LZ.stream.next_in, LZ.input_p)
                      && __CPROVER_r_ok(LZ.stream.next_in, LZ.stream.avail_in)),
                  "input kept is in the buffer kept");
        VG_ASSERT(LZ.output_size == 0
                  || __CPROVER_r_ok(LZ.output_p, LZ.output_size),
                  "output kept is in the buffer kept");
    }
    /* whatever happened, the end can release what is there */
    free(out_p);
    free(in_p);
    chunk.buf_p = NULL;
    (void)patch_reader_lzma_destroy(&r);
    VG_ASSERT(g_ended == 1, "the decoder is released once");
#else
    {
        bool left;

        left = (LZ.stream.avail_in != 0 || LZ.output_size != 0);
        res = patch_reader_lzma_destroy(&r);
        VG_ASSERT(g_ended == 1, "the decoder is released once");
        VG_ASSERT(res == (left ? -DETOOLS_CORRUPT_PATCH : 0),
                  "data left over is reported, and only that");
        if (left) { VG_COVER("data left over"); } else { VG_COVER("ends"); }
    }
#endif
}
