/* create_patch_loop(): accesses inside the images, the records follow each
   other and end with the new image complete, termination. search() and
   write_diff_extra_and_adjustment() by the contracts of units bs_match and
   bs_record. */
#include "bs.h"

/* last_scan, last_pos and last_offset as the applier's ghost has them. */
#define VG_BS_FRAME                                                      \
    (to_size == k.to_size && from_size == k.from_size                    \
     && 0 <= last_scan && last_scan <= to_size                           \
     && 0 <= last_pos && last_pos <= from_size                           \
     && g.to == last_scan && g.from == last_pos && !g.failed             \
     && pos >= 0 && pos <= from_size)
#define DETOOLS_LOOP_bsdiff_records(scan, len, pos)                      \
    __CPROVER_assigns(scan, len, pos, from_score, scsc, last_scan,       \
                      last_pos, last_offset, res, g)                     \
    __CPROVER_loop_invariant(VG_BS_FRAME                                 \
        && scan >= 0 && scan <= to_size && last_scan <= scan             \
        && len >= 0 && (scan == to_size || len <= to_size - scan)        \
        && last_offset >= -scan && last_offset <= from_size              \
        && (scan < to_size || g.to == to_size))                          \
    __CPROVER_decreases((int64_t)to_size - scan, len == 0)
#define DETOOLS_LOOP_bsdiff_scan(scan, scsc, len, from_score)            \
    __CPROVER_assigns(scan, scsc, len, from_score, pos)                  \
    __CPROVER_loop_invariant(VG_BS_FRAME                                 \
        && scan >= __CPROVER_loop_entry(scan) && scan <= to_size         \
        && scsc >= __CPROVER_loop_entry(scan) && scsc <= to_size         \
        && last_scan <= scan                                             \
        && len >= 0                                                      \
        && (scan > __CPROVER_loop_entry(scan) || from_score >= 0)        \
        && from_score <= scsc && from_score >= -scan)                    \
    __CPROVER_decreases((int64_t)to_size - scan)
#define DETOOLS_LOOP_bsdiff_scsc(scsc, from_score)                       \
    __CPROVER_assigns(scsc, from_score)                                  \
    __CPROVER_loop_invariant(scsc >= 0 && scsc <= to_size                \
        && scsc >= __CPROVER_loop_entry(scsc)                            \
        && from_score >= __CPROVER_loop_entry(from_score)                \
        && from_score <= scsc)                                           \
    __CPROVER_decreases((int64_t)to_size - scsc)

#include "/repo/detools/bsdiff.c"

static PyObject *list_p;

int32_t vg_search(int32_t *sa_p, uint8_t *from_p, int32_t from_size, uint8_t *to_p,
                  int32_t to_size, int32_t from_begin, int32_t from_end, int32_t *pos_p)
{
    int32_t res;
    int32_t pos;

    VG_ASSERT(sa_p == k.sa_p && from_p == k.from_p && from_size == k.from_size,
              "the whole old image is searched");
    VG_ASSERT(to_size >= 0 && to_size <= k.to_size && __CPROVER_same_object(to_p, k.to_p)
              && __CPROVER_POINTER_OFFSET(to_p) + (size_t)to_size == (size_t)k.to_size,
              "the rest of the new image is searched for");
    VG_ASSERT(0 <= from_begin && from_begin <= from_end && from_end <= from_size,
              "range inside the suffix array");
    VG_ASSUME(pos >= 0 && pos <= from_size);
    VG_ASSUME(res >= 0 && res <= to_size && res <= from_size - pos);
    *pos_p = pos;
    return (res);
}

int vg_write(PyObject *l_p, uint8_t *from_p, Py_ssize_t from_size, uint8_t *to_p,
             Py_ssize_t to_size, uint8_t *debuf_p, int32_t scan, int32_t pos,
             int32_t *last_scan_p, int32_t *last_pos_p, int32_t *last_offset_p)
{
    int res;
    int32_t to;
    int32_t from;

    VG_ASSERT(l_p == list_p && from_p == k.from_p && from_size == k.from_size
              && to_p == k.to_p && to_size == k.to_size && debuf_p == k.debuf_p,
              "images and buffer");
    VG_ASSERT(!g.failed, "nothing after a failure");
    VG_ASSERT(*last_scan_p == g.to && *last_pos_p == g.from, "records follow each other");
    VG_ASSERT(0 <= *last_scan_p && *last_scan_p <= scan && scan <= k.to_size,
              "end of the record in the new image");
    VG_ASSERT(0 <= *last_pos_p && *last_pos_p <= k.from_size, "begin in the old image");
    VG_ASSERT(0 <= pos && pos <= k.from_size, "position of the match in the old image");
    VG_ASSUME(0 <= to && to <= scan && (scan < k.to_size || to == scan));
    VG_ASSUME(0 <= from && from <= k.from_size);
    if (res != 0) {
        g.failed = true;
        return (res);
    }
    g.to = *last_scan_p = to;
    g.from = *last_pos_p = from;
    *last_offset_p = pos - scan;
    return (0);
}

void harness(void)
{
    int res;

    vg_bs_inputs();
    g.to = g.from = 0;
    g.failed = false;
    list_p = (PyObject *)&list_p;

    res = create_patch_loop(list_p, k.sa_p, k.from_p, k.from_size, k.to_p, k.to_size, k.debuf_p);

    if (g.failed) {
        VG_COVER("failure");
        VG_ASSERT(res != 0, "failure is reported");
    } else {
        VG_COVER("patch");
        VG_ASSERT(res == 0, "patch created");
        VG_ASSERT(g.to == k.to_size, "the records rebuild the whole new image");
    }
}
