/* Lemma: whatever header was read and however much was moved, there is a
   specification state that matches the object. No code is run; with
   VG_LEMMA_SEQ for sequential application. */
#include "/repo/c/detools.h"
#ifdef VG_LEMMA_SEQ
#include "seq.h"
#define VG_ENFORCE_STEP
#include "seq_contract.h"
static struct detools_apply_patch_t s;
#else
#include "ip.h"
#define VG_ENFORCE_STEP
#define VG_MULT(s) ((s)->segment.index * (s)->segment_size == (size_t)vg.prod)
#include "ip_contract.h"
static struct detools_apply_patch_in_place_t s;
#endif

void harness(void)
{
    __CPROVER_havoc_object(&s);
    __CPROVER_havoc_object(&vg);
    VG_ASSUME(VG_START_REL(&s));
    VG_ASSUME(vg.wit >= 0);
    vg.to_size = (int)s.to_size;
    vg.ps = (vg.to_size > 0 ? PS_DF : PS_DONE);
    vg.vcount = 0;
    vg.to = 0;
    vg.wit_set = false;
    vg.wit_out = false;
    vg.big = vg.bad_df = vg.bad_size = vg.io_failed = vg.dec_failed = vg.starved = false;
    vg.to_real = 0;
#ifdef VG_LEMMA_SEQ
    vg.from = vg.from_real = 0;
    VG_COVER("lemma applies");
    VG_ASSERT(VG_SEQ_REL(&s) && VG_SPEC_START, "a matching specification state exists");
#else
    vg.bad_from = vg.big_from = false;
    vg.step_res = 0;
    vg.seg = (int)s.segment_size;
    vg.memory = (int)s.memory_size;
    vg.shift = (int)s.shift_size;
    vg.moves = (vg.to_size > 0 ? s.ongoing_step - 1 : 0);
    vg.step = vg.moves + 1;
    vg.index = vg.prod = 0;
    vg.due = vg.finished = false;
    vg.read_left = 0;
    VG_COVER("lemma applies");
    VG_ASSERT(VG_IP_REL(&s) && VG_SPEC_START, "a matching specification state exists");
#endif
}
