/* matchlen() and search(): every access inside the images and the suffix
   array, for all arrays whose entries are positions of the old image; the
   result is a position and length inside both images. */
#include "bs.h"

#define DETOOLS_LOOP_bsdiff_matchlen(i)                                  \
    __CPROVER_assigns(i)                                                 \
    __CPROVER_loop_invariant(i >= 0 && (i <= from_size && i <= to_size)) \
    __CPROVER_decreases((int64_t)to_size - i)

#if VG_CASE == 1
static int32_t search(int32_t *sa_p, uint8_t *from_p, int32_t from_size, uint8_t *to_p,
                      int32_t to_size, int32_t from_begin, int32_t from_end, int32_t *pos_p)
/* the entries this call reads; the callers hold it for all */
__CPROVER_requires(from_size >= 0 && from_size <= VG_BS_MAX)
__CPROVER_requires(to_size >= 0 && to_size <= VG_BS_MAX)
__CPROVER_requires(from_p == k.from_p && from_size == k.from_size && sa_p == k.sa_p)
__CPROVER_requires(__CPROVER_r_ok(to_p, to_size))
__CPROVER_requires(0 <= from_begin && from_begin <= from_end && from_end <= from_size)
__CPROVER_requires(__CPROVER_w_ok(pos_p, sizeof(*pos_p)))
__CPROVER_assigns(*pos_p)
__CPROVER_ensures(*pos_p >= 0 && *pos_p <= from_size)
__CPROVER_ensures(__CPROVER_return_value >= 0 && __CPROVER_return_value <= to_size
                  && __CPROVER_return_value <= from_size - *pos_p)
;
#endif

#include "/repo/detools/bsdiff.c"

int32_t vg_matchlen(uint8_t *from_p, int32_t from_size, uint8_t *to_p, int32_t to_size)
{
    int32_t res;

    VG_ASSERT(from_size >= 0 && to_size >= 0 && __CPROVER_r_ok(from_p, from_size)
              && __CPROVER_r_ok(to_p, to_size), "only data of the images is compared");
    VG_ASSUME(res >= 0 && res <= from_size && res <= to_size);
    return (res);
}

int vg_memcmp(const void *a_p, const void *b_p, size_t size)
{
    int res;

    VG_ASSERT(__CPROVER_r_ok(a_p, size) && __CPROVER_r_ok(b_p, size),
              "only data of the images is compared");
    return (res);
}

#define VG_ENTRY(i) VG_ASSUME(k.sa_p[i] >= 0 && k.sa_p[i] <= k.from_size)

void harness(void)
{
    int32_t res;
    int32_t a;
    int32_t b;
    int32_t pos;
    int32_t *sa_p;

    vg_bs_inputs();
#if VG_CASE == 0
    res = matchlen(k.from_p, k.from_size, k.to_p, k.to_size);
    VG_COVER("any");
    VG_ASSERT(res >= 0 && res <= k.from_size && res <= k.to_size,
              "a match lies inside both images");
#else
    sa_p = malloc(((size_t)k.from_size + 1) * sizeof(*sa_p));
    VG_ASSUME(sa_p != NULL);
    k.sa_p = sa_p;
    VG_ASSUME(0 <= a && a <= b && b <= k.from_size);
    /* The precondition on the array, for the entries a call may read. */
    VG_ENTRY(a);
    VG_ENTRY(b);
    VG_ENTRY(a + (b - a) / 2);
    VG_ENTRY(a + (b - a + 1) / 2);
    res = search(sa_p, k.from_p, k.from_size, k.to_p, k.to_size, a, b, &pos);
    VG_COVER("any");
#endif
}
