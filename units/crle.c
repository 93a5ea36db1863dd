/* The CRLE reader against the definition of the format: a stream of
   segments, each a kind (0 or 1), a length (seven bits per byte, least
   significant first, at most four bytes), and then that many literal bytes
   (kind 0) or one byte to be repeated that many times (kind 1).

   The ghost decoder below is fed every byte the reader takes from the
   chunk, at the two functions that take bytes. */
#include "/repo/c/detools.h"
#include "vg.h"
#include "crle.h"

enum { PH_KIND = 1, PH_LENGTH, PH_LITERAL, PH_VALUE, PH_RUN };

static struct {
    int ph;
    int kind;
    int n;                  /* bytes of the length received */
    int64_t value;
    int64_t left;
    uint8_t rep;
    bool bad_kind;
    bool too_big;
    bool starved;
    /* literal bytes taken in this call */
    size_t lit;
    uint8_t wit_byte;
} g;

static size_t g_asked;
static size_t g_off0;

static void g_byte(uint8_t b)
{
    switch (g.ph) {
    case PH_KIND:
        if (b > 1) {
            g.bad_kind = true;
        }
        g.kind = b;
        g.n = 0;
        g.value = 0;
        g.ph = PH_LENGTH;
        break;
    case PH_LENGTH:
        if (g.n == 4) {
            g.too_big = true;
        } else {
            g.value += ((int64_t)(b & 0x7f) << (7 * g.n));
            g.n++;
            if ((b & 0x80) == 0) {
                g.left = g.value;
                g.ph = (g.kind == 1 ? PH_VALUE : g.left > 0 ? PH_LITERAL : PH_KIND);
            }
        }
        break;
    case PH_VALUE:
        g.rep = b;
        g.ph = (g.left > 0 ? PH_RUN : PH_KIND);
        break;
    default:
        VG_ASSERT(0, "no byte is taken while bytes of a run are still to be delivered");
        break;
    }
}

int vg_chunk_get(struct detools_apply_patch_chunk_t *self_p, uint8_t *data_p)
{
    uint8_t byte;

    VG_ASSERT(!g.bad_kind && !g.too_big && !g.starved, "nothing is read after a failure");
    /* as proved in unit chunk */
    if (self_p->offset == self_p->size) {
        g.starved = true;

        return (1);
    }

    /* each byte of the chunk is taken at most once, as the offset only
       grows: it may be chosen when it is taken */
    *data_p = byte;
    self_p->offset++;
    g_byte(byte);

    return (0);
}

int vg_chunk_read(struct detools_apply_patch_chunk_t *self_p,
                  uint8_t *buf_p,
                  size_t *size_p)
{
    size_t n;

    VG_ASSERT(!g.bad_kind && !g.too_big && !g.starved, "nothing is read after a failure");
    VG_ASSERT(g.ph == PH_LITERAL && *size_p >= 1 && (int64_t)*size_p <= g.left,
              "no more literal bytes are taken than the segment has");
    VG_ASSERT(g.lit == 0, "one run of literal bytes per call");
    VG_ASSERT(__CPROVER_w_ok(buf_p, *size_p), "buffer is big enough");
    /* as proved in unit chunk */
    n = self_p->size - self_p->offset;
    if (n == 0) {
        g.starved = true;

        return (1);
    }

    n = (*size_p < n ? *size_p : n);
    __CPROVER_havoc_slice(buf_p, n);
    if (g_wit < n) {
        g.wit_byte = buf_p[g_wit];
    }
    self_p->offset += n;
    *size_p = n;
    g.lit = n;
    g.left -= (int64_t)n;
    if (g.left == 0) {
        g.ph = PH_KIND;
    }

    return (0);
}

#define ST(x) detools_crle_state_##x##_t
#define LENGTH_REL(z)                                                    \
    (g.n >= 0 && g.n <= 4                                                \
     && (g.n == 0                                                        \
         ? ((z).state == detools_unpack_usize_state_first_t              \
            || ((z).state == detools_unpack_usize_state_consecutive_t    \
                && (z).value == 0 && (z).offset == 0))                   \
         : ((z).state == detools_unpack_usize_state_consecutive_t        \
            && (z).value >= 0 && (z).value < (1 << (7 * g.n))            \
            && (z).offset == 7 * g.n))                                   \
     && (g.n == 0 ? g.value == 0 : g.value == (z).value))
#define CRLE_REL(c)                                                      \
    ((c)->state == ST(idle) ? g.ph == PH_KIND                            \
     : (c)->state == ST(scattered_size)                                  \
     ? (g.ph == PH_LENGTH && g.kind == 0 && LENGTH_REL((c)->kind.scattered.size)) \
     : (c)->state == ST(scattered_data)                                  \
     ? (g.ph == PH_LITERAL && g.left > 0 && g.left < (1 << 28)           \
        && (int64_t)(c)->kind.scattered.number_of_bytes_left == g.left)  \
     : (c)->state == ST(repeated_repetitions)                            \
     ? (g.ph == PH_LENGTH && g.kind == 1 && LENGTH_REL((c)->kind.repeated.size)) \
     : (c)->state == ST(repeated_data)                                   \
     ? (g.ph == PH_VALUE && g.left >= 0 && g.left < (1 << 28)            \
        && (int64_t)(c)->kind.repeated.number_of_bytes_left == g.left)   \
     : (c)->state == ST(repeated_data_read)                              \
     ? (g.ph == PH_RUN && g.left > 0 && g.left < (1 << 28)               \
        && (int64_t)(c)->kind.repeated.number_of_bytes_left == g.left    \
        && (c)->kind.repeated.value == g.rep)                            \
     : 0)

static struct detools_apply_patch_patch_reader_t r;
static struct detools_apply_patch_chunk_t chunk;

#define DETOOLS_LOOP_crle_decompress(self_p, crle_p, res)                \
    __CPROVER_assigns(res, *size_p, *crle_p, chunk.offset,               \
                      __CPROVER_object_whole(buf_p), g)                  \
    __CPROVER_loop_invariant(CRLE_REL(crle_p) && *size_p == g_asked      \
        && chunk.offset >= g_off0 && chunk.offset <= chunk.size          \
        && !g.bad_kind && !g.too_big && !g.starved && g.lit == 0)        \
    __CPROVER_decreases(chunk.size - chunk.offset)
/* by unit crle_run */
static int patch_reader_crle_decompress_repeated_data_read(
    struct detools_apply_patch_patch_reader_crle_t *crle_p,
    uint8_t *buf_p,
    size_t *size_p)
CRLE_RUN_CONTRACT;

static int patch_reader_crle_decompress(
    struct detools_apply_patch_patch_reader_t *self_p,
    uint8_t *buf_p,
    size_t *size_p)
__CPROVER_requires(CRLE_REL(&self_p->compression.crle))
__CPROVER_requires(*size_p >= 1 && *size_p <= 128)
__CPROVER_requires(g.lit == 0 && !g.bad_kind && !g.too_big && !g.starved)
__CPROVER_assigns(*size_p, self_p->compression.crle, chunk.offset,
                  __CPROVER_object_whole(buf_p), g)
__CPROVER_ensures(__CPROVER_return_value <= 1
                  && __CPROVER_return_value != -DETOOLS_ALREADY_DONE)
/* refused exactly when the format says */
__CPROVER_ensures(g.bad_kind == (__CPROVER_return_value == -DETOOLS_CORRUPT_PATCH_CRLE_KIND))
__CPROVER_ensures(g.too_big == (__CPROVER_return_value == -DETOOLS_CORRUPT_PATCH_OVERFLOW))
__CPROVER_ensures(__CPROVER_return_value >= 0 || g.bad_kind || g.too_big)
/* more input is asked for only without it no byte can be delivered */
__CPROVER_ensures((__CPROVER_return_value == 1) == g.starved)
__CPROVER_ensures(__CPROVER_return_value != 1
                  || (chunk.offset == chunk.size && g.lit == 0 && g.ph != PH_RUN
                      && CRLE_REL(&self_p->compression.crle)))
/* what is delivered is what the segment says */
__CPROVER_ensures(__CPROVER_return_value != 0
                  || (*size_p >= 1 && *size_p <= __CPROVER_old(*size_p)))
__CPROVER_ensures(__CPROVER_return_value != 0
                  || (g.lit > 0
                      ? (*size_p == g.lit
                         && (g_wit >= *size_p || buf_p[g_wit] == g.wit_byte))
                      : (g.ph == PH_RUN && (int64_t)*size_p <= g.left
                         && (g_wit >= *size_p || buf_p[g_wit] == g.rep))))
__CPROVER_ensures(chunk.offset >= __CPROVER_old(chunk.offset) && chunk.offset <= chunk.size)
;

#include "/repo/c/detools.c"

void harness(void)
{
    uint8_t *out_p;
    size_t asked;
    int res;
    int ph;

    __CPROVER_havoc_object(&r);
    __CPROVER_havoc_object(&g);
    __CPROVER_havoc_object(&g_wit);
    VG_ASSUME(asked >= 1 && asked <= 128);
    g_asked = asked;
    out_p = malloc(asked);
    VG_ASSUME(out_p != NULL);
    __CPROVER_havoc_object(&chunk);
    VG_ASSUME(chunk.size <= VG_MAX27);
    chunk.buf_p = NULL; /* bytes come from the stubs */
    VG_ASSUME(chunk.offset <= chunk.size);
    g_off0 = chunk.offset;
    r.patch_chunk_p = &chunk;
    VG_ASSUME(CRLE_REL(&r.compression.crle));
    VG_ASSUME(g.lit == 0 && !g.bad_kind && !g.too_big && !g.starved);

    res = patch_reader_crle_decompress(&r, out_p, &asked);

    if (res == 0) {
        VG_COVER("bytes");
        if (g.lit > 0) {
            VG_COVER("literal bytes");
        } else {
            VG_COVER("repeated bytes");
            g.left -= (int64_t)asked;
            if (g.left == 0) {
                g.ph = PH_KIND;
            }
        }
        VG_ASSERT(CRLE_REL(&r.compression.crle), "ready for the rest of the stream");
    } else if (res == 1) {
        VG_COVER("more input");
    } else {
        VG_COVER("refused");
    }
    VG_ASSERT(patch_reader_crle_destroy(&r) == 0, "nothing to release");
}
