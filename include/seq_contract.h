/* The contract of one step of sequential application, proved by the
   seq_step and seq_init units and used by the units of its callers. */
#ifndef SEQ_CONTRACT_H
#define SEQ_CONTRACT_H
#include "seq_rel.h"

#define VG_IST(x) detools_apply_patch_init_state_##x##_t

/* Header not complete yet. */
#define VG_HSIZE_REL(z)                                                  \
    ((z).state == VG_UF                                                  \
     || ((z).state == VG_UC                                              \
         && ((z).offset == 6 || (z).offset == 13                         \
             || (z).offset == 20 || (z).offset == 27)                    \
         && (z).value >= 0 && (z).value < (1 << (z).offset)))
#define VG_INIT_REL(s)                                                   \
    ((s)->to_offset == 0                                              \
     && (s)->from_offset == 0                                            \
     && (s)->patch_reader.destroy == NULL                                \
     && ((s)->init_state == VG_IST(fixed_header)                         \
         || ((s)->init_state == VG_IST(to_size)                          \
             && VG_HSIZE_REL((s)->size))))

/* Header just completed. */
#define VG_START_REL(s)                                                  \
    ((s)->to_offset == 0                                              \
     && (s)->from_offset == 0                                            \
     && (s)->to_size <= VG_MAX27                                         \
     && (s)->patch_reader.destroy != NULL                                \
     && (s)->patch_reader.size.state == VG_UF                            \
     && (s)->state == ((s)->to_size > 0 ? VG_ST(dfpatch_size) : VG_ST(done)))

/* The specification automaton at the beginning of the patch data. */
#define VG_SPEC_START                                                    \
    (vg.ps == (vg.to_size > 0 ? PS_DF : PS_DONE)                         \
     && vg.vcount == 0 && vg.to == 0 && vg.from == 0                     \
     && vg.to_real == 0 && vg.from_real == 0                             \
     && vg.to_size >= 0 && vg.to_size <= VG_MAX27                        \
     && vg.wit >= 0 && !vg.wit_set && !vg.wit_out                        \
     && VG_ALIVE && !vg.big)

#define VG_OLD(x) __CPROVER_old(x)
#define VG_RES __CPROVER_return_value
#define VG_WAS_FAILED (VG_OLD(self_p->state) == VG_FAILED)
#define VG_WAS_DONE (VG_OLD(self_p->state) == VG_DONE)
#define VG_WAS_INIT (VG_OLD(self_p->state) == VG_INIT)
#define VG_SAME(x) (self_p->x == VG_OLD(self_p->x))

/* Steps that can follow without patch data in between. */
#define VG_RANK_(st, ist)                                                \
    ((st) == VG_INIT                                                     \
     ? 2 - (int)((ist) == detools_apply_patch_init_state_to_size_t) : 0)
#define VG_RANK2_(st, cs, fuel)                                          \
    ((uint64_t)2 * (fuel)                                                \
     + (((st) == detools_apply_patch_state_diff_data_t                   \
         || (st) == detools_apply_patch_state_extra_data_t)              \
        && (cs) == 0))
#define VG_RANK(s) VG_RANK_((s)->state, (s)->init_state)
#define VG_RANK2(s) VG_RANK2_((s)->state, (s)->chunk_size, vg.fuel)

/* Between steps. Once quiet, no callback may be invoked any more. */
#define VG_CHUNK_OK(s)                                                   \
    ((s)->chunk.offset <= (s)->chunk.size                                \
     && (s)->chunk.size <= (s)->patch_offset)
#define VG_SEQ_STATE(s, okay)                                            \
    (vg.wit >= 0                                                         \
     && ((s)->state == VG_FAILED                                         \
         || ((s)->state == VG_INIT && VG_INIT_REL(s) && !vg.quiet)       \
         || (VG_BODY((s)->state) && (okay) && !vg.big && VG_SEQ_REL(s)   \
             && (s)->patch_reader.destroy != NULL                        \
             && (!vg.quiet || (s)->state == VG_DONE))))
#define VG_SEQ_READY(s) (VG_CHUNK_OK(s) && VG_SEQ_STATE(s, VG_ALIVE))
/* The patch reader may have asked for more input. */
#define VG_SEQ_BETWEEN(s) VG_SEQ_STATE(s, VG_OKAY)

#ifdef VG_ENFORCE_STEP
/* What may be called at the end: the functions set by patch_reader_init(). */
#ifndef VG_DESTROY_VALID
#define VG_DESTROY_VALID(f) ((f) == vg_destroy)
#endif
#define VG_STARTED(s) VG_START_REL(s)
#else
#define VG_DESTROY_VALID(f) ((f) == vg_destroy)
/* By the lemma of unit seq_start: whatever header was read, there is a
   specification state that matches it. */
#define VG_STARTED(s) (VG_START_REL(s) && VG_SEQ_REL(s) && VG_SPEC_START \
                       && VG_DESTROY_VALID((s)->patch_reader.destroy))
#endif

#define VG_SEQ_ONCE_CONTRACT                                             \
__CPROVER_requires(VG_SEQ_READY(self_p))                                 \
__CPROVER_assigns(*self_p, vg)                                           \
/* callbacks and parameters stay as they are */                          \
__CPROVER_ensures(VG_SAME(from_read) && VG_SAME(from_seek)               \
                  && VG_SAME(to_write) && VG_SAME(arg_p)                 \
                  && VG_SAME(patch_size) && VG_SAME(patch_offset)        \
                  && VG_SAME(chunk.buf_p) && VG_SAME(chunk.size))        \
__CPROVER_ensures(VG_WAS_INIT                                            \
                  || (VG_SAME(to_size) && VG_SAME(compression)           \
                      && VG_SAME(patch_reader.destroy)                   \
                      && VG_SAME(patch_reader.decompress)                \
                      && VG_SAME(patch_reader.patch_chunk_p)))           \
__CPROVER_ensures(self_p->chunk.offset <= self_p->chunk.size             \
                  && self_p->chunk.offset >= VG_OLD(self_p->chunk.offset)) \
__CPROVER_ensures(vg.quiet == VG_OLD(vg.quiet) && vg.wit == VG_OLD(vg.wit) \
                  && vg.destroyed == VG_OLD(vg.destroyed)                \
                  && vg.destroy_res == VG_OLD(vg.destroy_res)            \
                  && (VG_WAS_INIT || vg.to_size == VG_OLD(vg.to_size)))  \
/* results */                                                            \
__CPROVER_ensures(VG_RES <= 1)                                           \
__CPROVER_ensures(VG_WAS_FAILED || VG_WAS_INIT || !vg.io_failed || VG_RES == -DETOOLS_IO_FAILED) \
__CPROVER_ensures(VG_WAS_FAILED || VG_WAS_INIT || !vg.dec_failed || VG_RES == vg.dec_res)        \
__CPROVER_ensures(VG_WAS_FAILED || VG_WAS_INIT || !vg.bad_df || vg.big || VG_RES == -DETOOLS_NOT_IMPLEMENTED) \
__CPROVER_ensures(VG_WAS_FAILED || VG_WAS_INIT || !vg.bad_size || vg.big || VG_RES == -DETOOLS_CORRUPT_PATCH) \
__CPROVER_ensures(VG_WAS_FAILED || VG_WAS_INIT || !vg.big || VG_RES == -DETOOLS_CORRUPT_PATCH_OVERFLOW) \
__CPROVER_ensures(VG_RES != 1 || VG_WAS_INIT || (vg.starved && !VG_WAS_FAILED))         \
__CPROVER_ensures(VG_RES == 1 || VG_WAS_INIT || VG_WAS_FAILED || !vg.starved)             \
__CPROVER_ensures(VG_RES != 1 || (self_p->chunk.offset == self_p->chunk.size              \
                                  && self_p->state != VG_DONE && self_p->state != VG_FAILED)) \
__CPROVER_ensures(VG_RES != -DETOOLS_ALREADY_DONE || VG_WAS_DONE) \
__CPROVER_ensures(!VG_WAS_DONE                                           \
                  || (VG_RES == -DETOOLS_ALREADY_DONE                    \
                      && self_p->state == VG_DONE && VG_SEQ_READY(self_p))) \
__CPROVER_ensures(!VG_WAS_FAILED                                         \
                  || (VG_RES == -DETOOLS_ALREADY_FAILED && self_p->state == VG_FAILED)) \
__CPROVER_ensures(VG_RES >= 0 || VG_WAS_DONE || self_p->state == VG_FAILED) \
/* nothing well-formed is refused */                                     \
__CPROVER_ensures(VG_RES >= 0 || VG_WAS_DONE || VG_WAS_FAILED || VG_WAS_INIT \
                  || vg.io_failed || vg.dec_failed || vg.bad_df || vg.bad_size || vg.big) \
/* otherwise the automaton is followed and everything determined is      \
   delivered */                                                          \
__CPROVER_ensures(VG_RES < 0 || VG_WAS_INIT                              \
                  || (VG_BODY(self_p->state) && VG_SEQ_BETWEEN(self_p)))  \
__CPROVER_ensures(VG_RES < 0 || !VG_WAS_INIT                             \
                  || (self_p->state == VG_INIT                           \
                      ? VG_SEQ_READY(self_p)                             \
                      : (VG_RES == 0 && VG_STARTED(self_p))))            \
__CPROVER_ensures(!VG_WAS_INIT || self_p->state == VG_INIT || VG_BODY(self_p->state) || self_p->state == VG_FAILED) \
__CPROVER_ensures(self_p->patch_reader.destroy == NULL                   \
                  || !VG_WAS_INIT                                        \
                  || VG_DESTROY_VALID(self_p->patch_reader.destroy))     \
/* termination */                                                        \
__CPROVER_ensures(VG_RES != 0                                            \
                  || VG_RANK(self_p) < VG_RANK_(VG_OLD(self_p->state), VG_OLD(self_p->init_state))           \
                  || (VG_RANK(self_p) == VG_RANK_(VG_OLD(self_p->state), VG_OLD(self_p->init_state))         \
                      && VG_RANK2(self_p) < VG_RANK2_(VG_OLD(self_p->state), VG_OLD(self_p->chunk_size), VG_OLD(vg.fuel))))

#endif
