/* process() and finalize() of in-place application, against the
   contract of one step. VG_FINALIZE selects the function. */
#define VG_OPAQUE
#include "/repo/c/detools.h"
#include "ip.h"
#include "ip_contract.h"

static int apply_patch_in_place_process_once(
    struct detools_apply_patch_in_place_t *self_p)
VG_IP_ONCE_CONTRACT;

#define VG_LOOP_FRAME(s)                                                 \
    (VG_BOUND(s)                                                         \
     && ((s)->patch_reader.destroy == NULL                               \
         || (s)->patch_reader.destroy == vg_destroy)                     \
     && (s)->patch_offset == vgl.patch_offset                            \
     && (s)->chunk.size == vgl.size                                      \
     && vg.destroyed == 0 && vg.destroy_res <= 0                         \
     && vg.has_set == vgl.has_set && vg.has_get == vgl.has_get           \
     && vg.wit == vgl.wit && vg.quiet == vgl.quiet                       \
     && (vgl.was != VG_FAILED || (s)->state == VG_FAILED)                \
     && (vgl.was != VG_DONE || (s)->state == VG_DONE))
/* After a negative result the object has failed, or is done. */
#define VG_LOOP_END(s, res)                                              \
    ((res) < 0                                                           \
     && ((s)->state == VG_FAILED                                         \
         || ((s)->state == VG_DONE && (res) == -DETOOLS_ALREADY_DONE     \
             && VG_IP_READY(s)))                                        \
     && ((res) != -DETOOLS_ALREADY_DONE || (s)->state == VG_DONE))
#define VG_LOOP_STARVED(s, res)                                          \
    ((res) == 1 && (s)->chunk.offset == (s)->chunk.size                  \
     && (s)->state != VG_FAILED && VG_IP_BETWEEN(s))

#define DETOOLS_LOOP_in_place_process(self_p, res)                                \
    __CPROVER_assigns(res, *self_p, vg)                                  \
    __CPROVER_loop_invariant(VG_LOOP_FRAME(self_p)                       \
        && self_p->chunk.offset <= self_p->chunk.size                    \
        && ((res == 0 && VG_IP_READY(self_p)                            \
             && (self_p->state != VG_FAILED || self_p->chunk.offset == 0) \
             && (vgl.was == self_p->state || vgl.size > 0))              \
            || VG_LOOP_STARVED(self_p, res)                              \
            || (vgl.size > 0 && VG_LOOP_END(self_p, res))))              \
    __CPROVER_decreases((res == 0 ? 1 + VG_RANK(self_p) : 0),            \
                        (res == 0 ? VG_RANK2(self_p) : 0))
#define DETOOLS_LOOP_in_place_finalize(self_p, res)                               \
    __CPROVER_assigns(res, *self_p, vg)                                  \
    __CPROVER_loop_invariant(VG_LOOP_FRAME(self_p)                       \
        && self_p->chunk.size == 0 && self_p->chunk.offset == 0          \
        && VG_IP_READY(self_p))                                         \
    __CPROVER_decreases(VG_RANK(self_p), VG_RANK2(self_p))

static struct {
    size_t patch_offset;
    size_t size;
    int wit;
    bool quiet;
    bool has_set;
    bool has_get;
    int was;
} vgl;

#define VG_PROC_WAS(x) (VG_OLD(self_p->state) == (x))

int detools_apply_patch_in_place_process(struct detools_apply_patch_in_place_t *self_p,
                                         const uint8_t *patch_p,
                                         size_t size)
__CPROVER_requires(VG_IP_STATE(self_p, VG_ALIVE))
__CPROVER_requires(self_p->patch_offset + size >= size)
__CPROVER_assigns(*self_p, vg)
__CPROVER_ensures(VG_RES <= 0)
__CPROVER_ensures(self_p->patch_offset == VG_OLD(self_p->patch_offset) + size)
/* nothing left over when more input is awaited */
__CPROVER_ensures(VG_RES < 0 || self_p->state == VG_DONE
                  || self_p->chunk.offset == self_p->chunk.size)
/* not failed: everything is as the next call expects it */
__CPROVER_ensures(VG_RES < 0 || (VG_IP_BETWEEN(self_p)
                                 && (size == 0 || self_p->state != VG_FAILED)))
/* failures are final */
__CPROVER_ensures(VG_RES == 0 || self_p->state == VG_FAILED)
__CPROVER_ensures(!VG_PROC_WAS(VG_FAILED) || size == 0 || VG_RES < 0)
__CPROVER_ensures(!VG_PROC_WAS(VG_FAILED) || self_p->state == VG_FAILED)
/* complete stays complete */
__CPROVER_ensures(!VG_PROC_WAS(VG_DONE) || (VG_RES == 0 && self_p->state == VG_DONE))
__CPROVER_ensures(vg.destroyed == VG_OLD(vg.destroyed))
__CPROVER_ensures(vg.quiet == VG_OLD(vg.quiet) && vg.wit == VG_OLD(vg.wit))
;

int detools_apply_patch_in_place_finalize(struct detools_apply_patch_in_place_t *self_p)
__CPROVER_requires(VG_IP_STATE(self_p, VG_ALIVE))
__CPROVER_assigns(*self_p, vg)
__CPROVER_ensures(VG_OLD(self_p->state) != VG_DONE || self_p->state == VG_DONE)
/* released once */
__CPROVER_ensures(vg.destroyed == (self_p->patch_reader.destroy != NULL))
/* success exactly when the patch is complete and the image delivered */
__CPROVER_ensures(VG_RES < 0
                  || (self_p->state == VG_DONE
                      && vg.ps == PS_DONE && VG_OKAY
                      && VG_RES == vg.to_size && !vg.due
                      && vg.finished == (vg.has_set && vg.to_size > 0)
                      && vg.wit_out == (vg.wit < vg.to_size && !vg.wit_skip)))
__CPROVER_ensures(VG_RES < 0 || (vg.destroyed == 1 && vg.destroy_res == 0))
__CPROVER_ensures(self_p->state != VG_DONE || vg.destroy_res != 0
                  || VG_RES == vg.to_size)
__CPROVER_ensures(!(VG_OLD(self_p->state) == VG_FAILED) || VG_RES < 0)
;

#include "/repo/c/detools.c"

static struct detools_apply_patch_in_place_t s;

void harness(void)
{
    int res;
    uint8_t buf[1];
    size_t size;
    bool has_reader;

    __CPROVER_havoc_object(&s);
    __CPROVER_havoc_object(&vg);
    s.mem_read = vg_mem_read;
    s.mem_write = vg_mem_write;
    s.mem_erase = vg_mem_erase;
    s.step_set = (vg.has_set ? vg_step_set : NULL);
    s.step_get = (vg.has_get ? vg_step_get : NULL);
    s.patch_reader.decompress = vg_decompress;
    s.patch_reader.destroy = (has_reader ? vg_destroy : NULL);
    s.patch_reader.patch_chunk_p = &s.chunk;
    vg.destroyed = 0;
    VG_ASSUME(vg.destroy_res <= 0);
#ifdef VG_FINALIZE
    size = 0;
    vgl.patch_offset = s.patch_offset;
#else
    vgl.patch_offset = s.patch_offset + size;
#endif
    vgl.size = size;
    vgl.wit = vg.wit;
    vgl.quiet = vg.quiet;
    vgl.has_set = vg.has_set;
    vgl.has_get = vg.has_get;
    vgl.was = s.state;
#ifdef VG_FINALIZE
    res = detools_apply_patch_in_place_finalize(&s);
#else
    res = detools_apply_patch_in_place_process(&s, &buf[0], size);
#endif
    if (res < 0) { VG_COVER("fails"); }
    if (res == 0) { VG_COVER("succeeds"); }
#ifdef VG_FINALIZE
    if (res > 0) { VG_COVER("complete image"); }
#endif
}
