/* Taking bits: the next ones, most significant first, or none at all. */
#include "/repo/c/heatshrink/heatshrink_decoder.h"
#include "vg.h"
#include "hs.h"

static heatshrink_decoder h;
static uint32_t v0;
static int n0;

#if VG_CASE == 0
static uint16_t get_bits(heatshrink_decoder *hsd, uint8_t count)
__CPROVER_requires(HS_IN_OK(hsd) && v0 == HS_V(hsd) && n0 == HS_N(hsd))
__CPROVER_requires(count >= 1 && count <= 8)
__CPROVER_assigns(hsd->input_size, hsd->input_index, hsd->bit_index, hsd->current_byte)
__CPROVER_ensures(HS_IN_OK(hsd))
__CPROVER_ensures((__CPROVER_return_value == 0xffff) == (n0 < count))
__CPROVER_ensures(n0 >= count
                  || (HS_N(hsd) == n0 && HS_V(hsd) == v0))
__CPROVER_ensures(n0 < count
                  || (__CPROVER_return_value == ((v0 >> (n0 - count)) & HS_MASK(count))
                      && HS_N(hsd) == n0 - count
                      && HS_V(hsd) == (v0 & HS_MASK(n0 - count))))
;

#elif VG_CASE == 3
static size_t g_size;
static uint8_t g_out[128];
#elif VG_CASE == 1
/* The window and the state are outside what is assigned. */
HSD_sink_res heatshrink_decoder_sink(heatshrink_decoder *hsd, uint8_t *in_buf,
                                     size_t size, size_t *input_size)
__CPROVER_requires(HS_BITS_REL(hsd) && hsd->input_size == 0 && size == 1)
__CPROVER_assigns(*input_size, hsd->input_size, __CPROVER_object_upto(hsd->buffers, 1))
__CPROVER_ensures(__CPROVER_return_value == HSDR_SINK_OK && *input_size == 1)
__CPROVER_ensures(hsd->input_size == 1 && HS_IN_OK(hsd) && HS_N(hsd) == g.n + 8
                  && HS_V(hsd) == ((g.v << 8) | *in_buf))
;
#endif

#include "/repo/c/heatshrink/heatshrink_decoder.c"

#if VG_CASE == 3
static void push_byte(heatshrink_decoder *hsd, output_info *oi, uint8_t byte)
__CPROVER_requires(g_size < oi->buf_size && oi->buf_size <= sizeof(g_out))
__CPROVER_requires(oi->buf == g_out && oi->output_size == &g_size)
__CPROVER_assigns(g_out[g_size], g_size)
__CPROVER_ensures(g_size == __CPROVER_old(g_size) + 1)
__CPROVER_ensures(g_out[g_size - 1] == byte)
;
#endif

void harness(void)
{
    uint8_t count;
    uint16_t bits;
    size_t size;
    HSD_sink_res res;

    __CPROVER_havoc_object(&h);
    __CPROVER_havoc_object(&g);
#if VG_CASE == 0
    VG_ASSUME(HS_IN_OK(&h));
    v0 = HS_V(&h);
    n0 = HS_N(&h);
    VG_ASSUME(count >= 1 && count <= 8);
    bits = get_bits(&h, count);
    if (bits == 0xffff) { VG_COVER("not enough bits"); } else { VG_COVER("bits"); }
#elif VG_CASE == 1
    h.input_size = 0;
    VG_ASSUME(HS_BITS_REL(&h));
    res = heatshrink_decoder_sink(&h, &count, 1, &size);
    VG_COVER("sunk");
#elif VG_CASE == 2
    g.ph = PH_TAG;
    g.n = 0;
    g.v = 0;
    g.have = 0;
    VG_ASSUME(g.back >= -HS_AHEAD && g.back <= 257);
    VG_ASSUME(g.back < 1 || g.wit_val == 0);
    heatshrink_decoder_reset(&h);
    VG_ASSERT(HS_REL(&h), "the decoder starts with no bits and a window of zeros");
    VG_COVER("reset");
#elif VG_CASE == 3
    output_info oi;

    __CPROVER_havoc_object(&g_out);
    __CPROVER_havoc_object(&g_size);
    oi.buf = g_out;
    oi.output_size = &g_size;
    VG_ASSUME(g_size < oi.buf_size && oi.buf_size <= sizeof(g_out));
    push_byte(&h, &oi, count);
    VG_COVER("pushed");
#endif
}
