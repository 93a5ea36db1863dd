/* write_diff_extra_and_adjustment(): one record. Applied to the old image
   it extends the new image by exactly the bytes up to the new end, no size
   is negative, every access is inside the buffers. Bytes are followed by
   an arbitrary witness (g.wit) and an arbitrary index (k.any). */
#include "bs.h"

/* What is established step by step. */
#define VG_IN                                                            \
    (0 <= last_scan && last_scan <= scan && scan <= k.to_size            \
     && 0 <= last_pos && last_pos <= k.from_size                         \
     && 0 <= pos && pos <= k.from_size)
#define VG_FORWARD                                                       \
    (0 <= diff_size && diff_size <= scan - last_scan                     \
     && diff_size <= k.from_size - last_pos)
#define VG_BACKWARD                                                      \
    (0 <= lenb && lenb <= scan - last_scan && lenb <= pos)
#define VG_APART                                                         \
    (diff_size <= scan - last_scan - lenb                                \
     && (k.any < 0 || k.any >= diff_size                                 \
         || (last_scan + k.any < k.to_size                               \
             && last_pos + k.any < k.from_size)))

#define DETOOLS_LOOP_bsdiff_lenf(i, s, sf, diff_size)                    \
    __CPROVER_assigns(i, s, sf, diff_size)                               \
    __CPROVER_loop_invariant(VG_IN && i >= 0 && i <= scan - last_scan    \
        && i <= k.from_size - last_pos                                   \
        && s >= 0 && s <= i && sf >= 0 && sf <= diff_size                \
        && diff_size <= i && VG_FORWARD)                                 \
    __CPROVER_decreases((int64_t)scan - last_scan - i)
#define DETOOLS_LOOP_bsdiff_lenb(i, s, sb, lenb)                         \
    __CPROVER_assigns(i, s, sb, lenb)                                    \
    __CPROVER_loop_invariant(VG_IN && VG_FORWARD                         \
        && i >= 1 && i - 1 <= scan - last_scan                           \
        && i - 1 <= pos && s >= 0 && s < i && sb >= 0 && sb <= lenb      \
        && lenb < i && VG_BACKWARD)                                      \
    __CPROVER_decreases((int64_t)scan - last_scan - i + 1)
#define DETOOLS_LOOP_bsdiff_overlap(i, s, ss, lens)                      \
    __CPROVER_assigns(i, s, ss, lens)                                    \
    __CPROVER_loop_invariant(VG_IN && VG_FORWARD && VG_BACKWARD          \
        && i >= 0 && i <= overlap && s >= -i && s <= i                   \
        && overlap <= diff_size && overlap <= lenb                       \
        && overlap == diff_size - (scan - last_scan - lenb)              \
        && ss >= 0 && lens >= 0 && lens <= i)                            \
    __CPROVER_decreases((int64_t)overlap - i)
#define DETOOLS_LOOP_bsdiff_diff(i)                                      \
    __CPROVER_assigns(i, __CPROVER_object_whole(debuf_p))                \
    __CPROVER_loop_invariant(VG_IN && VG_FORWARD && VG_BACKWARD          \
        && VG_APART && i >= 0 && i <= diff_size                          \
        && (k.any < 0 || k.any >= i                                      \
            || debuf_p[k.any] == (uint8_t)(to_p[last_scan + k.any]       \
                                           - from_p[last_pos + k.any]))) \
    __CPROVER_decreases((int64_t)diff_size - i)
#define DETOOLS_LOOP_bsdiff_extra(i)                                     \
    __CPROVER_assigns(i, __CPROVER_object_whole(debuf_p))                \
    __CPROVER_loop_invariant(VG_IN && VG_FORWARD && VG_BACKWARD          \
        && VG_APART && i >= 0 && i <= extra_size                         \
        && extra_pos == last_scan + diff_size                            \
        && extra_size == scan - lenb - extra_pos                         \
        && extra_pos <= k.to_size && extra_size <= k.to_size - extra_pos \
        && (k.any < 0 || k.any >= i                                      \
            || debuf_p[k.any] == to_p[extra_pos + k.any]))               \
    __CPROVER_decreases((int64_t)extra_size - i)

#include "/repo/detools/bsdiff.c"

static PyObject *list_p;

int vg_append_buffer(PyObject *l_p, uint8_t *buf_p, int32_t size)
{
    int res;
    int32_t old;

    VG_ASSERT(l_p == list_p && !g.failed, "one list, nothing after a failure");
    VG_ASSERT(size >= 0, "no size is negative");
    VG_ASSERT(__CPROVER_r_ok(buf_p, size), "data inside the buffer");
    VG_ASSERT(size <= k.to_size - g.to, "no more than the new image");
    VG_ASSERT(g.parts == 0 || g.parts == 1, "order of a record");

    if (k.any >= 0 && k.any < size) {
        if (g.parts == 0) {
            old = g.from + k.any;
            VG_ASSERT(old >= 0 && old < k.from_size, "diff inside the old image");
            VG_ASSERT((uint8_t)(buf_p[k.any] + k.from_p[old]) == k.to_p[g.to + k.any],
                      "diff byte added to the old byte gives the new byte");
        } else {
            VG_ASSERT(buf_p[k.any] == k.to_p[g.to + k.any], "extra byte is the new byte");
        }
    }

    if (g.parts == 0) {
        g.from += size;
    }

    g.to += size;
    g.parts++;
    if (res != 0) {
        g.failed = true;
    }
    return (res);
}

int vg_append_size(PyObject *l_p, int32_t size)
{
    int res;

    VG_ASSERT(l_p == list_p && !g.failed, "one list, nothing after a failure");
    VG_ASSERT(g.parts == 2, "order of a record");
    g.from += size;
    g.parts = 0;
    g.records++;
    if (res != 0) {
        g.failed = true;
    }
    return (res);
}

void harness(void)
{
    int res;
    int32_t scan;
    int32_t pos;
    int32_t last_scan;
    int32_t last_pos;
    int32_t last_offset;
    int records;

    vg_bs_inputs();
    k.debuf_p = malloc((size_t)k.to_size + 1);
    VG_ASSUME(k.debuf_p != NULL);
    list_p = (PyObject *)&list_p;
    VG_ASSUME(0 <= last_scan && last_scan <= scan && scan <= k.to_size);
    VG_ASSUME(0 <= last_pos && last_pos <= k.from_size);
    VG_ASSUME(0 <= pos && pos <= k.from_size);
    g.to = last_scan;
    g.from = last_pos;
    g.parts = 0;
    g.failed = false;
    g.records = 0;

    res = write_diff_extra_and_adjustment(list_p, k.from_p, k.from_size, k.to_p, k.to_size,
                                          k.debuf_p, scan, pos, &last_scan, &last_pos,
                                          &last_offset);

    if (g.failed) {
        VG_COVER("failure");
        VG_ASSERT(res != 0, "failure to append is reported");
        return;
    }

    VG_COVER("record");
    VG_ASSERT(res == 0, "record written");
    VG_ASSERT(g.records == 1 && g.parts == 0, "a complete record");
    VG_ASSERT(g.to == last_scan && g.from == last_pos,
              "the next record starts where applying this one ends");
    VG_ASSERT(last_scan >= 0 && last_scan <= scan && (scan < k.to_size || last_scan == scan),
              "the last record reaches the end of the new image");
    VG_ASSERT(last_pos >= 0 && last_pos <= k.from_size, "position in the old image");
    VG_ASSERT(last_offset == pos - scan, "offset between the images");
}
