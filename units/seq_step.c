/* One step of sequential application after the header refines the
   specification automaton of the patch format. */
#include "/repo/c/detools.h"
#include "seq.h"
#define VG_ENFORCE_STEP
#include "seq_contract.h"

static int apply_patch_process_once(struct detools_apply_patch_t *self_p)
VG_SEQ_ONCE_CONTRACT;

#include "/repo/c/detools.c"

static struct detools_apply_patch_t s;
void harness(void)
{
    int res;

    __CPROVER_havoc_object(&s);
    __CPROVER_havoc_object(&vg);
    vg.destroyed = 0;
    s.state = VG_CASE;
    s.from_read = vg_from_read;
    s.from_seek = vg_from_seek;
    s.to_write = vg_to_write;
    s.patch_reader.decompress = vg_decompress;
    s.patch_reader.destroy = vg_destroy;
    s.patch_reader.patch_chunk_p = &s.chunk;
    res = apply_patch_process_once(&s);
#if VG_CASE <= 6
    if (res == 0) { VG_COVER("step ok"); }
    if (res == 1) { VG_COVER("step starved"); }
    if (res < 0) { VG_COVER("step failed"); }
#if VG_CASE == 3 || VG_CASE == 5
    if (res == 0 && vg.wit_out) { VG_COVER("witness byte delivered"); }
#endif
#else
    if (res < 0) { VG_COVER("step refused"); }
#endif
}
