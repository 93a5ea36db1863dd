/* Polling the heatshrink decoder against the ghost decoder. */
#include "/repo/c/heatshrink/heatshrink_decoder.h"
#include "vg.h"
#include "hs.h"

static void g_field(void)
{
    int need = (g.ph == PH_TAG ? 1 : g.ph == PH_CNT ? 7 : 8);

    if (g.have < need) {
        return;
    }

    switch (g.ph) {
    case PH_TAG:
        g.ph = (g.field == 1 ? PH_LIT : PH_IDX);
        break;
    case PH_LIT:
        g.lit = (uint8_t)g.field;
        g.ph = PH_EMIT;
        break;
    case PH_IDX:
        g.dist = (int)g.field + 1;
        g.ph = PH_CNT;
        break;
    default:
        g.left = (int)g.field + 1;
        g.ph = PH_COPY;
        break;
    }

    g.have = 0;
    g.field = 0;
}

/* get_bits() as proved in unit hs_bits, and the ghost decoder fed with the
   bits taken. */
uint16_t vg_get_bits(heatshrink_decoder *hsd, uint8_t count)
{
    uint16_t bits;
    heatshrink_decoder next;
    int need = (g.ph == PH_TAG ? 1 : g.ph == PH_CNT ? 7 : 8);

    VG_ASSERT(g.ph != PH_EMIT && g.ph != PH_COPY,
              "no bits are taken while bytes are to be delivered");
    VG_ASSERT(HS_IN_OK(hsd) && g.n == HS_N(hsd) && g.v == HS_V(hsd),
              "bits are taken in order");
    VG_ASSERT(count >= 1 && count <= need - g.have,
              "no bits beyond the current field are taken");
    VG_ASSUME(count >= 1 && count <= 8 && count <= need - g.have);

    if (g.n < count) {
        g.starved = true;

        return (0xffff);
    }

    hsd->input_size = next.input_size;
    hsd->input_index = next.input_index;
    hsd->bit_index = next.bit_index;
    hsd->current_byte = next.current_byte;
    bits = (uint16_t)((g.v >> (g.n - count)) & HS_MASK(count));
    g.n -= count;
    g.v &= HS_MASK(g.n);
    VG_ASSUME(HS_IN_OK(hsd) && g.n == HS_N(hsd) && g.v == HS_V(hsd));
    g.field = (g.have == 0 ? 0 : g.field << count) | bits;
    g.have += count;
    g_field();

    return (bits);
}

/* push_byte(): to the output buffer, at its end. Proved in unit hs_bits. */
void vg_push(uint8_t *buf_p, size_t size, size_t *output_size_p, uint8_t byte)
{
    VG_ASSERT(*output_size_p < size, "no byte beyond the buffer");
    VG_ASSUME(*output_size_p < size);

    if (g.ph == PH_EMIT) {
        VG_ASSERT(byte == g.lit, "the literal byte is delivered");
        g.ph = PH_TAG;
    } else {
        VG_ASSERT(g.ph == PH_COPY, "a byte is due");
        VG_ASSERT(g.back != g.dist || byte == g.wit_val,
                  "the byte at the distance back is delivered");
        g.left--;
        if (g.left == 0) {
            g.ph = PH_TAG;
        }
    }

    buf_p[*output_size_p] = byte;
    if (g.back == 0) {
        g.wit_val = byte;
    }
    if (g.back < 257) {
        g.back++;
    }
    (*output_size_p)++;
}

/* As at the start of the call. */
static struct vg_hs_t g0;

#define DETOOLS_LOOP_heatshrink_poll(hsd, output_size)                   \
    __CPROVER_assigns(*hsd, *output_size, g,                         \
                      __CPROVER_object_upto(out_buf, out_buf_size))      \
    __CPROVER_loop_invariant(HS_REL(hsd) && *output_size <= out_buf_size \
        && HS_DELIVERED(out_buf, *output_size, g0.back, g0.wit_val))     \
    __CPROVER_decreases(2 * g.n + (hsd->state == HSDS_YIELD_BACKREF))

#ifdef VG_COPY
#define HS_ENTRY(x) __CPROVER_loop_entry(x)
#define DETOOLS_LOOP_heatshrink_backref(hsd, oi, i)                      \
    __CPROVER_assigns(i, hsd->head_index, *oi->output_size,              \
                      g.back, g.left, g.ph, g.wit_val,                   \
                      __CPROVER_object_upto(hsd->buffers + 256, 256),    \
                      __CPROVER_object_upto(oi->buf + *oi->output_size,  \
                                            oi->buf_size - *oi->output_size)) \
    __CPROVER_loop_invariant(i <= count                                  \
        && hsd->head_index == (uint16_t)(HS_ENTRY(hsd->head_index) + i)  \
        && *oi->output_size == HS_ENTRY(*oi->output_size) + i            \
        && g.left == HS_ENTRY(g.left) - (int)i                           \
        && g.ph == (g.left == 0 ? PH_TAG : PH_COPY)                      \
        && HS_WINDOW_REL(hsd)                                            \
        && HS_DELIVERED(oi->buf + HS_ENTRY(*oi->output_size), i,         \
                        g0.back, g0.wit_val))                            \
    __CPROVER_decreases(count - i)
#else
HSD_poll_res heatshrink_decoder_poll(heatshrink_decoder *hsd,
                                     uint8_t *out_buf,
                                     size_t out_buf_size,
                                     size_t *output_size)
HS_POLL_CONTRACT;
#endif

#include "/repo/c/heatshrink/heatshrink_decoder.c"

static HSD_state st_yield_backref(heatshrink_decoder *hsd, output_info *oi)
HS_COPY_CONTRACT;

void vg_push_byte(heatshrink_decoder *hsd, output_info *oi, uint8_t byte)
{
    (void)hsd;
    vg_push(oi->buf, oi->buf_size, oi->output_size, byte);
}

static heatshrink_decoder h;

void harness(void)
{
    uint8_t *out_p;
    size_t asked;
    size_t size;
    HSD_poll_res res;

    __CPROVER_havoc_object(&h);
    __CPROVER_havoc_object(&g);
    VG_ASSUME(HS_REL(&h));
    g0 = g;
    VG_ASSUME(asked >= 1 && asked <= 128);
    out_p = malloc(asked);
    VG_ASSUME(out_p != NULL);
#ifdef VG_COPY
    output_info oi;
    VG_ASSUME(size <= asked);
    oi.buf = out_p;
    oi.buf_size = asked;
    oi.output_size = &size;
    VG_ASSUME(h.state == HSDS_YIELD_BACKREF);
    st_yield_backref(&h, &oi);
    if (g.left == 0) { VG_COVER("copied"); }
    if (g.left > 0) { VG_COVER("copied in part"); }
#else
    res = heatshrink_decoder_poll(&h, out_p, asked, &size);
    if (size == asked) { VG_COVER("full"); }
    if (size == 0) { VG_COVER("nothing"); }
#endif
}
