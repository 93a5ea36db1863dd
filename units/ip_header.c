/* in_place_is_header_ok(): the sizes of an in-place header that fit each
   other, by definition. */
#include "/repo/c/detools.h"
#include "vg.h"
#include "/repo/c/detools.c"

static struct detools_apply_patch_in_place_t s;

void harness(void)
{
    size_t to_size;
    bool memory_whole;
    bool shift_whole;
    bool want;

    __CPROVER_havoc_object(&s);
    want = false;
    if (s.segment_size > 0) {
        memory_whole = (s.memory_size % s.segment_size == 0);
        shift_whole = (s.shift_size % s.segment_size == 0);
        want = (memory_whole && shift_whole && s.shift_size <= s.memory_size
                && to_size <= s.memory_size);
    }
    VG_COVER("header sizes");
    VG_ASSERT(in_place_is_header_ok(&s, to_size) == want,
              "memory and shift are whole segments, move and image fit the memory");
}
