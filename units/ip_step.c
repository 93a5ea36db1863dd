/* One step of in-place application after the header and the move refines
   the specification automaton. */
#include "/repo/c/detools.h"
#include "ip.h"
#define VG_ENFORCE_STEP
#include "ip_contract.h"

static int apply_patch_in_place_process_once(
    struct detools_apply_patch_in_place_t *self_p)
VG_IP_ONCE_CONTRACT;

#include "/repo/c/detools.c"

static struct detools_apply_patch_in_place_t s;

void harness(void)
{
    int res;
    int was_index;
    int was_prod;
    int was_seg;
    size_t was_size;

    __CPROVER_havoc_object(&s);
    __CPROVER_havoc_object(&vg);
    vg.destroyed = 0;
    s.state = VG_CASE;
    s.mem_read = vg_mem_read;
    s.mem_write = vg_mem_write;
    s.mem_erase = vg_mem_erase;
    s.step_set = (vg.has_set ? vg_step_set : NULL);
    s.step_get = (vg.has_get ? vg_step_get : NULL);
    s.patch_reader.decompress = vg_decompress;
    s.patch_reader.destroy = vg_destroy;
    s.patch_reader.patch_chunk_p = &s.chunk;
#if VG_CASE == 1
    /* The end of the segment is the product, and so is the next one, by
       the lemma of unit ip_lemma. */
#define VG_I s.segment.index
#define VG_S s.segment_size
    VG_ASSUME(VG_I * VG_S == (size_t)vg.prod && VG_S * VG_I == (size_t)vg.prod);
    VG_ASSUME((VG_I + 1) * VG_S == (size_t)vg.prod + VG_S
              && VG_S * (VG_I + 1) == (size_t)vg.prod + VG_S);
#endif
    was_seg = vg.seg;
    was_size = s.segment_size;
    was_index = vg.index;
    was_prod = vg.prod;
    res = apply_patch_in_place_process_once(&s);
    VG_ASSERT(vg.seg == was_seg && s.segment_size == was_size,
              "the segment size stays");
    VG_ASSERT((vg.index == was_index && vg.prod == was_prod)
              || (VG_CASE == 1 && vg.index == was_index + 1
                  && vg.prod == was_prod + was_seg),
              "a product stays the product");
#if VG_CASE <= 6
    if (res == 0) { VG_COVER("step ok"); }
    if (res == 1) { VG_COVER("step starved"); }
    if (res < 0) { VG_COVER("step failed"); }
#if VG_CASE == 3 || VG_CASE == 5
    if (res == 0 && vg.wit_out) { VG_COVER("witness byte delivered"); }
    if (res == 0 && vg.skip) { VG_COVER("completed step skipped"); }
#endif
#else
    if (res < 0) { VG_COVER("step refused"); }
#endif
}
