/* The heatshrink reader between chunks and the decoder. VG_CASE 0: before
   the first byte, 1: after, 2: the end. */
#include "/repo/c/detools.h"
#include "vg.h"
#include "hs.h"

static struct detools_apply_patch_patch_reader_t r;
static struct detools_apply_patch_chunk_t chunk;
static bool g_fresh;            /* the header byte is still to come */
static bool g_bad_header;
static struct vg_hs_t g0;
static size_t g_asked;
static uint8_t *g_out_p;
#define HS_NONE                                                          \
    (g.ph == PH_TAG && g.n == 0 && g.v == 0 && g.have == 0               \
     && g.back >= -HS_AHEAD && g.back <= 257                             \
     && (g.back < 1 || g.wit_val == 0))
static size_t g_off0;
/* The decoder object is related to the ghost decoder (HS_REL): only the
   functions of the decoder change it. */
static bool g_rel;
static bool g_due;              /* a byte taken and not passed on yet */
static uint8_t g_byte;
static int g_in;                /* bytes in its input buffer */
#define HSR (r.compression.heatshrink)
#define HSD (&HSR.decoder)
#define HS_REL_ALL(h) HS_REL(h)

int vg_chunk_get(struct detools_apply_patch_chunk_t *self_p, uint8_t *data_p)
{
    uint8_t byte;

    VG_ASSERT(!g.starved && !g_bad_header, "nothing is read after a failure");
    /* as proved in unit chunk */
    if (self_p->offset == self_p->size) {
        g.starved = true;

        return (1);
    }

    /* each byte of the chunk is taken at most once, as the offset only
       grows: it may be chosen when it is taken */
    *data_p = byte;
    self_p->offset++;

    if (g_fresh) {
        /* window size less 4, lookahead size less 3 */
        g_fresh = false;
        g_bad_header = ((byte >> 4) + 4 != HEATSHRINK_STATIC_WINDOW_BITS
                        || (byte & 15) + 3 != HEATSHRINK_STATIC_LOOKAHEAD_BITS);
    } else {
        VG_ASSERT(!g_due, "each byte is passed on");
        g_due = true;
        g_byte = byte;
    }

    return (0);
}

/* heatshrink_decoder_poll() as proved in unit hs_poll (HS_POLL_CONTRACT).
   What it delivers is where it is told to put it, and nothing else writes
   to the buffer, so it is enough to look at the place. */
static size_t g_n;              /* bytes delivered in this call */

HSD_poll_res vg_poll(heatshrink_decoder *hsd,
                     uint8_t *out_buf,
                     size_t out_buf_size,
                     size_t *output_size)
{
    size_t n;
    int in;
    struct vg_hs_t next;

    VG_ASSERT(hsd == HSD && g_rel && !g_due, "the decoder has what it was given");
    VG_ASSERT(out_buf_size >= 1 && out_buf_size <= 128, "room for a byte");
    VG_ASSERT(__CPROVER_w_ok(out_buf, out_buf_size), "buffer is big enough");
    VG_ASSERT(out_buf == g_out_p + g_n, "delivered after what was delivered before");
    VG_ASSUME(n <= out_buf_size);
    next.starved = g.starved;
    VG_ASSUME(next.back == HS_BACK(g.back, n));
    VG_ASSUME((g.back <= 0 && -g.back < (int)n) || next.wit_val == g.wit_val);
    g = next;
    g_n += n;
    g_in = in;
    VG_ASSUME(n == out_buf_size
              || (in == 0 && g.ph != PH_COPY
                  && g.n < (g.ph == PH_TAG ? 1 : g.ph == PH_CNT ? 7 : 8)));
    *output_size = n;

    return (n == out_buf_size ? HSDR_POLL_MORE : HSDR_POLL_EMPTY);
}

/* heatshrink_decoder_sink() and _reset(), as proved in unit hs_bits. */
HSD_sink_res vg_sink(heatshrink_decoder *hsd, uint8_t *in_buf, size_t size, size_t *input_size)
{
    VG_ASSERT(hsd == HSD && g_rel, "the decoder has what it was given");
    VG_ASSERT(size == 1 && g_due && *in_buf == g_byte, "the byte taken is passed on");
    VG_ASSERT(g_in == 0 && g.n <= 7, "a byte is taken only when its bits are needed");
    VG_ASSUME(g_in == 0 && g.n <= 7);
    g_due = false;
    g_in = 1;
    g.v = ((g.v << 8) | g_byte);
    g.n += 8;
    *input_size = 1;

    return (HSDR_SINK_OK);
}

void vg_reset(heatshrink_decoder *hsd)
{
    VG_ASSERT(hsd == HSD && !g_rel, "reset before the first byte only");
    VG_ASSERT(HS_NONE, "nothing was decoded before");
    g_rel = true;
    g_in = 0;
}

#define DETOOLS_LOOP_heatshrink_decompress(self_p, buf_p, left)          \
    __CPROVER_assigns(buf_p, left, size, pres, sres, res, byte,          \
                      g, g_n, g_fresh, g_bad_header, g_in, g_due, g_byte, \
                      g_rel, chunk.offset)                               \
    __CPROVER_loop_invariant(g_rel && HSR.decoder_p == HSD         \
        && HSR.window_sz2 == HEATSHRINK_STATIC_WINDOW_BITS               \
        && HSR.lookahead_sz2 == HEATSHRINK_STATIC_LOOKAHEAD_BITS         \
        && left >= 1 && left <= g_asked && *size_p == g_asked            \
        && g_n == g_asked - left && buf_p == g_out_p + g_n               \
        && g.back == HS_BACK(g0.back, g_n) && g.back >= -HS_AHEAD          \
        && ((g0.back <= 0 && -g0.back < (int)g_n) || g.wit_val == g0.wit_val) \
        && !g.starved && !g_fresh && !g_bad_header && !g_due             \
        && chunk.offset >= g_off0 && chunk.offset <= chunk.size)         \
    __CPROVER_decreases(chunk.size - chunk.offset)

/* Fresh: nothing delivered, zeros before the beginning. */
#define HS_FRESH                                                         \
    (HSR.window_sz2 == -1 && HSR.decoder_p == NULL && !g_rel && !g_due && HS_NONE)
#define HS_RUNNING                                                       \
    (g_rel && HSR.decoder_p == HSD && !g_due                             \
     && HSR.window_sz2 == HEATSHRINK_STATIC_WINDOW_BITS                  \
     && HSR.lookahead_sz2 == HEATSHRINK_STATIC_LOOKAHEAD_BITS)
#define HS_READY (g_fresh ? HS_FRESH : HS_RUNNING)

#if VG_CASE != 2
static int patch_reader_heatshrink_decompress(
    struct detools_apply_patch_patch_reader_t *self_p,
    uint8_t *buf_p,
    size_t *size_p)
__CPROVER_requires(HS_READY && !g_bad_header && !g.starved)
__CPROVER_requires(*size_p >= 1 && *size_p <= 128)
__CPROVER_assigns(*size_p, HSR, chunk.offset, g, g_n, g_fresh, g_bad_header,
                  g_rel, g_in, g_due, g_byte)
__CPROVER_ensures(__CPROVER_return_value <= 1)
/* refused exactly when the parameters are others than those built for */
__CPROVER_ensures(__CPROVER_return_value >= 0
                  || __CPROVER_return_value == -DETOOLS_HEATSHRINK_HEADER)
__CPROVER_ensures((__CPROVER_return_value < 0) == g_bad_header)
__CPROVER_ensures(__CPROVER_return_value < 0 || HS_READY)
/* what is delivered is what the stream says */
__CPROVER_ensures(__CPROVER_return_value != 0
                  || (*size_p >= 1 && *size_p <= __CPROVER_old(*size_p)
                      && *size_p == g_n))
/* more input is asked for only when there is none and no byte is due */
__CPROVER_ensures(__CPROVER_return_value != 1
                  || (chunk.offset == chunk.size && g.starved
                      && g.ph != PH_COPY
                      && g.n < (g.ph == PH_TAG ? 1 : g.ph == PH_CNT ? 7 : 8)
                      && g_n == 0))
__CPROVER_ensures(chunk.offset >= __CPROVER_old(chunk.offset) && chunk.offset <= chunk.size)
;
#endif

#include "/repo/c/detools.c"
#include "/repo/c/heatshrink/heatshrink_decoder.c"

void harness(void)
{
    size_t asked;
    int res;

    __CPROVER_havoc_object(&r);
    __CPROVER_havoc_object(&g);
    __CPROVER_havoc_object(&chunk);
    VG_ASSUME(chunk.size <= VG_MAX27 && chunk.offset <= chunk.size);
    chunk.buf_p = NULL; /* bytes come from the stub */
    g_off0 = chunk.offset;
    r.patch_chunk_p = &chunk;
    g_bad_header = false;
    g.starved = false;
#if VG_CASE == 0
    patch_reader_heatshrink_init(&r);
    VG_ASSERT(r.decompress == patch_reader_heatshrink_decompress
              && r.destroy == patch_reader_heatshrink_destroy, "set up");
    g_fresh = true;
    g_rel = false;
    g_due = false;
    g.ph = PH_TAG;
    g.n = 0;
    g.v = 0;
    g.have = 0;
    VG_ASSUME(g.back >= -HS_AHEAD && g.back <= 257);
    VG_ASSUME(g.back < 1 || g.wit_val == 0);
#else
    g_fresh = false;
    HSR.decoder_p = HSD;
    HSR.window_sz2 = HEATSHRINK_STATIC_WINDOW_BITS;
    HSR.lookahead_sz2 = HEATSHRINK_STATIC_LOOKAHEAD_BITS;
    g_rel = true;
    g_due = false;
    VG_ASSUME(g.back >= -HS_AHEAD && g.back <= 257);
#endif
    g0 = g;
    g_n = 0;
    VG_ASSUME(asked >= 1 && asked <= 128);
    g_asked = asked;
    g_out_p = malloc(asked);
    VG_ASSUME(g_out_p != NULL);
#if VG_CASE == 2
    bool started;
    VG_ASSUME(HS_REL_ALL(HSD));

    if (!started) {
        patch_reader_heatshrink_init(&r);
    }
    res = patch_reader_heatshrink_destroy(&r);
    VG_ASSERT(res == 0 || res == -DETOOLS_CORRUPT_PATCH, "the end is judged");
    if (!started) {
        VG_ASSERT(res == 0, "a stream not begun may end");
    } else {
        VG_ASSERT(g.ph != PH_COPY || res < 0, "bytes of a copy left over are reported");
        VG_ASSERT(HSR.decoder.input_size == 0 || res < 0, "input left over is reported");
        VG_ASSERT(g.ph == PH_COPY || HSR.decoder.input_size != 0 || res == 0,
                  "padding bits at the end are accepted");
        if (res == 0) { VG_COVER("ends"); } else { VG_COVER("data left over"); }
    }
#else
    res = patch_reader_heatshrink_decompress(&r, g_out_p, &asked);
    if (res == 0) { VG_COVER("bytes"); }
    if (res == 1) { VG_COVER("more input"); }
#if VG_CASE == 0
    if (res < 0) { VG_COVER("refused"); }
#endif
#endif
}
