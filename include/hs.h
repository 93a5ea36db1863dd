/* The LZSS bit stream heatshrink defines (window of 2^8, counts of 7 bits),
   as a ghost decoder fed bit by bit, and the relation of the decoder object
   to it.

   Bits are taken from bytes most significant first. A one is followed by
   eight literal bits; a zero by eight bits of distance less one and seven
   bits of count less one, copied from what was delivered before, bytes
   before the beginning being zero. */
#ifndef HS_H
#define HS_H

enum { PH_TAG = 1, PH_LIT, PH_IDX, PH_CNT, PH_EMIT, PH_COPY };

struct vg_hs_t {
    int ph;
    uint32_t v;             /* bits given and not yet taken */
    int n;                  /* how many */
    int have;               /* bits of the current field taken */
    uint32_t field;
    uint8_t lit;
    int dist;               /* 1..256 */
    int left;               /* bytes of the copy left, 1..128 */
    /* any byte of the output, or a zero before it: how far back from the
       end of what was delivered it is (257: too far to be copied; zero or
       less: not delivered yet) */
    int back;
    uint8_t wit_val;
    bool starved;
};

static struct vg_hs_t g;

#define HS_AHEAD (1 << 30)

/* The bits the decoder object holds. */
#define HS_NB(b)                                                         \
    ((b) == 0 ? 0 : (b) == 1 ? 1 : (b) == 2 ? 2 : (b) == 4 ? 3           \
     : (b) == 8 ? 4 : (b) == 16 ? 5 : (b) == 32 ? 6 : (b) == 64 ? 7 : 8)
#define HS_BIT_OK(b)                                                     \
    ((b) == 0 || (b) == 1 || (b) == 2 || (b) == 4 || (b) == 8            \
     || (b) == 16 || (b) == 32 || (b) == 64 || (b) == 128)
#define HS_N(h) (HS_NB((h)->bit_index) + 8 * (int)(h)->input_size)
#define HS_CUR(h)                                                        \
    ((uint32_t)((h)->current_byte & ((1 << HS_NB((h)->bit_index)) - 1)))
#define HS_V(h)                                                          \
    ((h)->input_size == 0 ? HS_CUR(h)                                    \
     : ((HS_CUR(h) << 8) | (h)->buffers[0]))
#define HS_IN_OK(h)                                                      \
    ((h)->input_size <= 1 && (h)->input_index == 0 && HS_BIT_OK((h)->bit_index))
#define HS_BITS_REL(h) (HS_IN_OK(h) && g.n == HS_N(h) && g.v == HS_V(h))

/* The window holds the last 256 bytes delivered. */
#define HS_WINDOW_REL(h)                                                 \
    (g.back >= -HS_AHEAD && g.back <= 257                                \
     && (g.back < 1 || g.back > 256                                      \
         || (h)->buffers[256 + (((h)->head_index - g.back) & 255)] == g.wit_val))
/* After n more bytes, the witness as it was before being back0, val0. */
#define HS_BACK(back0, n)                                                \
    ((back0) + (int)(n) > 257 ? 257 : (back0) + (int)(n))
#define HS_DELIVERED(buf, n, back0, val0)                                \
    (g.back == HS_BACK(back0, n)                                         \
     && ((back0) <= 0 && -(back0) < (int)(n)                             \
         ? (buf)[-(back0)] == g.wit_val : g.wit_val == (val0)))

/* HSD_state */
#define HS_STATE_REL(h)                                                  \
    ((h)->state == 0 ? g.ph == PH_TAG                                    \
     : (h)->state == 1 ? g.ph == PH_LIT                                  \
     : (h)->state == 3 ? (g.ph == PH_IDX && (h)->output_index == 0)      \
     : (h)->state == 5 ? (g.ph == PH_CNT && (h)->output_count == 0       \
                          && g.dist >= 1 && g.dist <= 256                \
                          && (h)->output_index == g.dist)                \
     : (h)->state == 6 ? (g.ph == PH_COPY                                \
                          && g.dist >= 1 && g.dist <= 256                \
                          && (h)->output_index == g.dist                 \
                          && g.left >= 1 && g.left <= 128                \
                          && (h)->output_count == g.left)                \
     : 0)
#define HS_REL(h)                                                        \
    (HS_BITS_REL(h) && HS_WINDOW_REL(h) && HS_STATE_REL(h) && g.have == 0)

/* Contract of taking bits, proved in unit hs_bits. */
#define HS_MASK(n) ((1u << (n)) - 1)

/* Contract of polling, proved in unit hs_poll. */
#define HS_POLL_CONTRACT                                                 \
__CPROVER_requires(HS_REL(hsd))                                          \
__CPROVER_requires(out_buf_size >= 1 && out_buf_size <= 128)             \
__CPROVER_requires(__CPROVER_w_ok(out_buf, out_buf_size))                \
__CPROVER_assigns(*hsd, *output_size, g,                                 \
                  __CPROVER_object_upto(out_buf, out_buf_size))          \
__CPROVER_ensures(__CPROVER_return_value == HSDR_POLL_EMPTY              \
                  || __CPROVER_return_value == HSDR_POLL_MORE)           \
__CPROVER_ensures(HS_REL(hsd))                                           \
__CPROVER_ensures(*output_size <= out_buf_size)                          \
__CPROVER_ensures(HS_DELIVERED(out_buf, *output_size, __CPROVER_old(g.back), \
                               __CPROVER_old(g.wit_val)))                \
/* not full: every bit there is was looked at, and no byte is due */     \
__CPROVER_ensures(*output_size == out_buf_size                           \
                  || (hsd->input_size == 0 && g.ph != PH_COPY            \
                      && g.n < (g.ph == PH_TAG ? 1 : g.ph == PH_CNT ? 7 : 8)))

/* Contract of copying, proved in unit hs_copy. */
#define HS_COPY_N                                                        \
    ((size_t)__CPROVER_old(g.left) < oi->buf_size - __CPROVER_old(*oi->output_size) \
     ? (size_t)__CPROVER_old(g.left)                                     \
     : oi->buf_size - __CPROVER_old(*oi->output_size))
#define HS_COPY_CONTRACT                                                 \
__CPROVER_requires(hsd->state == 6 && HS_REL(hsd))                       \
__CPROVER_requires(*oi->output_size <= oi->buf_size                      \
                   && oi->buf_size >= 1 && oi->buf_size <= 128)          \
__CPROVER_requires(__CPROVER_w_ok(oi->buf, oi->buf_size))                \
__CPROVER_assigns(hsd->head_index, hsd->output_count,                    \
                  __CPROVER_object_upto(hsd->buffers + 256, 256),        \
                  *oi->output_size,                                      \
                  __CPROVER_object_upto(oi->buf + *oi->output_size,      \
                                        oi->buf_size - *oi->output_size), \
                  g.back, g.left, g.ph, g.wit_val)                      \
__CPROVER_ensures(*oi->output_size == __CPROVER_old(*oi->output_size) + HS_COPY_N) \
__CPROVER_ensures(g.left == __CPROVER_old(g.left) - (int)HS_COPY_N)      \
__CPROVER_ensures(hsd->output_count == g.left)                           \
__CPROVER_ensures(g.ph == (g.left == 0 ? PH_TAG : PH_COPY))              \
__CPROVER_ensures(__CPROVER_return_value == (g.left == 0 ? 0 : 6))       \
__CPROVER_ensures(HS_WINDOW_REL(hsd))                                    \
__CPROVER_ensures(HS_DELIVERED(oi->buf + __CPROVER_old(*oi->output_size), \
                               HS_COPY_N, __CPROVER_old(g.back),         \
                               __CPROVER_old(g.wit_val)))

#endif
