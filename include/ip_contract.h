/* Relation between a struct detools_apply_patch_in_place_t past its header
   and the specification automaton of ip.h, and the contract of one step:
   proved by units ip_step and ip_init, used by ip_process, ip_finalize. */
#ifndef IP_CONTRACT_H
#define IP_CONTRACT_H
#include "ip.h"

#define VG_ST(x) detools_apply_patch_state_##x##_t
#define VG_UF detools_unpack_usize_state_first_t
#define VG_UC detools_unpack_usize_state_consecutive_t
#define VG_FAILED VG_ST(failed)
#define VG_DONE VG_ST(done)
#define VG_INIT VG_ST(init)
#define VG_BODY(st) ((st) == VG_ST(dfpatch_size) || (st) == VG_ST(diff_size) \
                     || (st) == VG_ST(diff_data) || (st) == VG_ST(extra_size) \
                     || (st) == VG_ST(extra_data)                        \
                     || (st) == VG_ST(adjustment) || (st) == VG_ST(done))

/* Partially received size. */
#define VG_SIZE_REL(z)                                                   \
    (vg.vcount == 0                                                      \
     ? (z).state == VG_UF                                                \
     : (vg.vcount >= 1 && vg.vcount <= 4                                 \
        && (vg.ps == PS_DF || vg.ps == PS_DS                             \
            || vg.ps == PS_ES || vg.ps == PS_AD)                         \
        && (z).state == VG_UC                                            \
        && (z).offset == 6 + 7 * (vg.vcount - 1)                         \
        && (z).value >= 0                                                \
        && (z).value < (1 << (6 + 7 * (vg.vcount - 1)))                  \
        && vg.vval == (z).value                                          \
        && vg.vneg == (z).is_signed))

#define VG_RANGES                                                        \
    (vg.to >= 0 && vg.to <= VG_MAX27 && vg.start >= 0                    \
     && vg.start <= VG_MAX27 && vg.len >= 0 && vg.len <= VG_MAX27)
#define VG_DATA_REL(cs, data_ps, next_ps)                                \
    ((cs) == 0                                                           \
     ? (vg.ps == (next_ps) && vg.vcount == 0)                            \
     : (vg.ps == (data_ps) && (size_t)vg.rem == (cs) && vg.rem > 0       \
        && VG_RANGES && vg.rem <= vg.start + vg.len - vg.to))

#define VG_PHASE_REL(st, cs)                                             \
    ((st) == VG_ST(dfpatch_size) ? vg.ps == PS_DF                        \
     : (st) == VG_ST(diff_size) ? vg.ps == PS_DS                         \
     : (st) == VG_ST(diff_data) ? VG_DATA_REL(cs, PS_DD, PS_ES)          \
     : (st) == VG_ST(extra_size) ? vg.ps == PS_ES                        \
     : (st) == VG_ST(extra_data) ? VG_DATA_REL(cs, PS_ED, PS_AD)         \
     : (st) == VG_ST(adjustment) ? vg.ps == PS_AD                        \
     : (st) == VG_ST(done) ? vg.ps == PS_DONE                            \
     : 0)

/* What the header says. */
#define VG_GEOMETRY                                                      \
    (vg.to_size >= 0 && vg.to_size <= VG_MAX27                           \
     && vg.moves >= 0 && vg.moves <= VG_MAX27                            \
     && (vg.to_size == 0                                                 \
         || (vg.seg >= 1 && vg.seg <= VG_MAX27                           \
             && vg.memory >= 1 && vg.memory <= VG_MAX27                  \
             && vg.shift >= 0 && vg.shift <= vg.memory                   \
             && vg.to_size <= vg.memory)))
#define VG_HEADER_REL(s)                                                 \
    ((s)->to_size == (size_t)vg.to_size                                  \
     && (vg.to_size == 0                                                 \
         || ((s)->segment_size == (size_t)vg.seg                         \
             && (s)->memory_size == (size_t)vg.memory                    \
             && (s)->shift_size == (size_t)vg.shift)))

/* The end of the segment is the product of its number and the segment
   size. Kept by every step: only the first state changes any of the
   three, and there by one segment (unit ip_lemma). */
#ifndef VG_MULT
#define VG_MULT(s) 1
#endif
/* Between segments, and inside one. */
#define VG_PLACE_REL(s)                                                  \
    (vg.ps == PS_DONE                                                    \
     || ((s)->to_pos == (size_t)vg.to && vg.to >= 0                      \
         && vg.to_size > 0                                               \
         && (s)->ongoing_step == vg.step                                 \
         && (s)->segment.index == (size_t)vg.index                       \
         && vg.index >= 0 && vg.index <= vg.prod && VG_MULT(s)           \
         && (vg.ps == PS_DF                                              \
             ? (vg.to < vg.to_size                                       \
                && vg.prod == vg.to && vg.index <= VG_MAX27              \
                && vg.step == vg.moves + vg.index + 1)                   \
             : (VG_RANGES && vg.index <= 2 * VG_MAX27 && vg.to >= vg.start && vg.to <= vg.start + vg.len          \
                && vg.start < vg.to_size                                 \
                && vg.len == VG_MIN(vg.seg, vg.to_size - vg.start)       \
                && vg.prod == vg.start + vg.seg                          \
                && (s)->segment.to_offset == (size_t)vg.start            \
                && (s)->segment.to_size == (size_t)vg.len                \
                && (s)->segment.to_pos == (size_t)(vg.to - vg.start)     \
                && vg.from >= INT_MIN && vg.from <= INT_MAX              \
                && (s)->segment.from_offset == (int)vg.from              \
                && vg.skip == (vg.has_get && vg.step <= vg.stored)       \
                && (vg.erased || vg.skip)                                \
                && (vg.skip || vg.to_real == vg.to)                      \
                && vg.step == vg.moves + vg.index))))

/* Everything the patch data decoded so far determines has been delivered. */
#define VG_DELIVERED                                                     \
    (!vg.due && vg.read_left == 0                                        \
     && vg.finished == (vg.ps == PS_DONE && vg.has_set && vg.to_size > 0) \
     && vg.wit_set == (vg.wit < vg.to)                                   \
     && vg.wit_out == (vg.wit_set && !vg.wit_skip)                       \
     && (vg.ps != PS_DONE || vg.to == vg.to_size))

/* The image is complete. */
#define VG_DONE_FACTS(s)                                                 \
    (vg.ps == PS_DONE && (s)->to_size == (size_t)vg.to_size              \
     && vg.to_size >= 0 && vg.to_size <= VG_MAX27                        \
     && vg.finished == (vg.has_set && vg.to_size > 0)                    \
     && !vg.due && vg.wit_out == (vg.wit < vg.to_size && !vg.wit_skip))

#ifdef VG_OPAQUE
#define VG_IP_REL(s)                                                     \
    (vg.rel && ((s)->state != VG_ST(done) || VG_DONE_FACTS(s)))
#else
#define VG_IP_REL(s)                                                     \
    (VG_PHASE_REL((s)->state, (s)->chunk_size)                           \
     && (vg.ps == PS_DONE || VG_SIZE_REL((s)->patch_reader.size))        \
     && VG_GEOMETRY && VG_HEADER_REL(s) && VG_PLACE_REL(s) && VG_DELIVERED)
#endif

/* Callbacks bound to the monitors. */
#define VG_BOUND(s)                                                      \
    ((s)->mem_read == vg_mem_read && (s)->mem_write == vg_mem_write      \
     && (s)->mem_erase == vg_mem_erase                                   \
     && (s)->step_set == (vg.has_set ? vg_step_set : NULL)               \
     && (s)->step_get == (vg.has_get ? vg_step_get : NULL))

/* Header not complete yet. */
#define VG_IST(x) detools_apply_patch_in_place_init_state_##x##_t
#define VG_HSIZE_REL(z)                                                  \
    ((z).state == VG_UF                                                  \
     || ((z).state == VG_UC                                              \
         && ((z).offset == 6 || (z).offset == 13                         \
             || (z).offset == 20 || (z).offset == 27)                    \
         && (z).value >= 0 && (z).value < (1 << (z).offset)))
#define VG_READ_(s, st, field)                                           \
    ((int)(s)->init_state <= (int)VG_IST(st) || (s)->field <= VG_MAX27)
#define VG_INIT_REL(s)                                                   \
    ((s)->patch_reader.destroy == NULL && (s)->ongoing_step == 1         \
     && (int)(s)->init_state >= (int)VG_IST(fixed_header)                \
     && (int)(s)->init_state <= (int)VG_IST(to_size)                     \
     && ((s)->init_state == VG_IST(fixed_header) || VG_HSIZE_REL((s)->size)) \
     && VG_READ_(s, memory_size, memory_size)                            \
     && VG_READ_(s, segment_size, segment_size)                          \
     && VG_READ_(s, shift_size, shift_size)                              \
     && VG_READ_(s, from_size, from_size))

/* Header just completed, and the old image moved. */
#define VG_START_REL(s)                                                  \
    ((s)->to_pos == 0 && (s)->segment.index == 0                         \
     && (s)->to_size <= VG_MAX27                                         \
     && (s)->patch_reader.destroy != NULL                                \
     && (s)->patch_reader.size.state == VG_UF                            \
     && (s)->state == ((s)->to_size > 0 ? VG_ST(dfpatch_size) : VG_ST(done)) \
     && ((s)->to_size == 0                                               \
         || ((s)->segment_size >= 1 && (s)->segment_size <= VG_MAX27     \
             && (s)->memory_size <= VG_MAX27                             \
             && (s)->shift_size <= (s)->memory_size                      \
             && (s)->to_size <= (s)->memory_size                         \
             && (s)->ongoing_step >= 1                                   \
             && (s)->ongoing_step <= VG_MAX27 + 1)))
#define VG_SPEC_START                                                    \
    (vg.ps == (vg.to_size > 0 ? PS_DF : PS_DONE)                         \
     && vg.vcount == 0 && vg.to == 0                                     \
     && VG_GEOMETRY && vg.step == vg.moves + 1 && !vg.due && !vg.finished && vg.read_left == 0      \
     && vg.wit >= 0 && !vg.wit_set && !vg.wit_out && VG_ALIVE)

#define VG_OLD(x) __CPROVER_old(x)
#define VG_RES __CPROVER_return_value
#define VG_WAS_FAILED (VG_OLD(self_p->state) == VG_FAILED)
#define VG_WAS_DONE (VG_OLD(self_p->state) == VG_DONE)
#define VG_WAS_INIT (VG_OLD(self_p->state) == VG_INIT)
#define VG_SAME(x) (self_p->x == VG_OLD(self_p->x))

/* Steps that can follow without patch data in between. */
#define VG_RANK_(st, ist) ((st) == VG_INIT ? 10 - (int)(ist) : 0)
#define VG_RANK2_(st, cs, fuel)                                          \
    ((uint64_t)2 * (fuel)                                                \
     + (((st) == VG_ST(diff_data) || (st) == VG_ST(extra_data)) && (cs) == 0))
#define VG_RANK(s) VG_RANK_((s)->state, (s)->init_state)
#define VG_RANK2(s) VG_RANK2_((s)->state, (s)->chunk_size, vg.fuel)

#define VG_CHUNK_OK(s)                                                   \
    ((s)->chunk.offset <= (s)->chunk.size                                \
     && (s)->chunk.size <= (s)->patch_offset)
#define VG_IP_STATE(s, okay)                                             \
    (vg.wit >= 0                                                         \
     && ((s)->state == VG_FAILED                                         \
         || ((s)->state == VG_INIT && VG_INIT_REL(s) && !vg.quiet)       \
         || (VG_BODY((s)->state) && (okay) && VG_IP_REL(s)               \
             && (s)->patch_reader.destroy != NULL                        \
             && (!vg.quiet || (s)->state == VG_DONE))))
#define VG_IP_READY(s) (VG_CHUNK_OK(s) && VG_IP_STATE(s, VG_ALIVE))
#define VG_IP_BETWEEN(s) VG_IP_STATE(s, VG_OKAY)

#ifdef VG_ENFORCE_STEP
#ifndef VG_DESTROY_VALID
#define VG_DESTROY_VALID(f) ((f) == vg_destroy)
#endif
#define VG_STARTED(s) VG_START_REL(s)
#else
#define VG_DESTROY_VALID(f) ((f) == vg_destroy)
/* By the lemma of unit ip_start. */
#define VG_STARTED(s) (VG_START_REL(s) && VG_IP_REL(s) && VG_SPEC_START  \
                       && VG_DESTROY_VALID((s)->patch_reader.destroy))
#endif

#define VG_BODY_CALL (!VG_WAS_FAILED && !VG_WAS_INIT)

#define VG_IP_ONCE_CONTRACT                                              \
__CPROVER_requires(VG_IP_READY(self_p))                                  \
__CPROVER_assigns(*self_p, vg)                                           \
__CPROVER_ensures(VG_SAME(mem_read) && VG_SAME(mem_write)                \
                  && VG_SAME(mem_erase) && VG_SAME(step_set)             \
                  && VG_SAME(step_get) && VG_SAME(arg_p)                 \
                  && VG_SAME(patch_size) && VG_SAME(patch_offset)        \
                  && VG_SAME(chunk.buf_p) && VG_SAME(chunk.size))        \
__CPROVER_ensures(VG_WAS_INIT                                            \
                  || (VG_SAME(to_size) && VG_SAME(compression)           \
                      && VG_SAME(patch_reader.destroy)                   \
                      && VG_SAME(patch_reader.decompress)                \
                      && VG_SAME(patch_reader.patch_chunk_p)))           \
__CPROVER_ensures(self_p->chunk.offset <= self_p->chunk.size             \
                  && self_p->chunk.offset >= VG_OLD(self_p->chunk.offset)) \
__CPROVER_ensures(vg.quiet == VG_OLD(vg.quiet) && vg.wit == VG_OLD(vg.wit) \
                  && vg.destroyed == VG_OLD(vg.destroyed)                \
                  && vg.destroy_res == VG_OLD(vg.destroy_res)            \
                  && vg.has_set == VG_OLD(vg.has_set)                    \
                  && vg.has_get == VG_OLD(vg.has_get)                    \
                  && (VG_WAS_INIT || vg.to_size == VG_OLD(vg.to_size)))  \
/* results */                                                            \
__CPROVER_ensures(VG_RES <= 1)                                           \
__CPROVER_ensures(!VG_BODY_CALL || !vg.io_failed || VG_RES == -DETOOLS_IO_FAILED) \
__CPROVER_ensures(!VG_BODY_CALL || vg.step_res == 0                      \
                  || VG_RES == -DETOOLS_IO_FAILED || VG_RES == vg.step_res) \
__CPROVER_ensures(!VG_BODY_CALL || !vg.dec_failed || VG_RES == vg.dec_res) \
__CPROVER_ensures(!VG_BODY_CALL || !vg.bad_df || vg.big                  \
                  || VG_RES == -DETOOLS_NOT_IMPLEMENTED)                 \
__CPROVER_ensures(!VG_BODY_CALL || (!vg.bad_size && !vg.bad_from && !vg.big_from) || vg.big \
                  || VG_RES == -DETOOLS_CORRUPT_PATCH)                   \
__CPROVER_ensures(!VG_BODY_CALL || !vg.big || VG_RES == -DETOOLS_CORRUPT_PATCH_OVERFLOW) \
__CPROVER_ensures(VG_RES != 1 || VG_WAS_INIT || (vg.starved && !VG_WAS_FAILED)) \
__CPROVER_ensures(VG_RES == 1 || !VG_BODY_CALL || !vg.starved)           \
__CPROVER_ensures(VG_RES != 1 || (self_p->chunk.offset == self_p->chunk.size \
                                  && self_p->state != VG_DONE && self_p->state != VG_FAILED)) \
__CPROVER_ensures(VG_RES != -DETOOLS_ALREADY_DONE || VG_WAS_DONE)        \
__CPROVER_ensures(!VG_WAS_DONE                                           \
                  || (VG_RES == -DETOOLS_ALREADY_DONE                    \
                      && self_p->state == VG_DONE && VG_IP_READY(self_p))) \
__CPROVER_ensures(!VG_WAS_FAILED                                         \
                  || (VG_RES == -DETOOLS_ALREADY_FAILED && self_p->state == VG_FAILED)) \
__CPROVER_ensures(VG_RES >= 0 || VG_WAS_DONE || self_p->state == VG_FAILED) \
/* nothing well-formed is refused */                                     \
__CPROVER_ensures(VG_RES >= 0 || VG_WAS_DONE || VG_WAS_FAILED || VG_WAS_INIT \
                  || !VG_OKAY)                                           \
/* otherwise the automaton is followed and everything determined is      \
   delivered */                                                          \
__CPROVER_ensures(VG_RES < 0 || VG_WAS_INIT                              \
                  || (VG_BODY(self_p->state) && VG_IP_BETWEEN(self_p)))  \
__CPROVER_ensures(VG_RES < 0 || !VG_WAS_INIT                             \
                  || (self_p->state == VG_INIT                           \
                      ? VG_IP_READY(self_p)                              \
                      : (VG_RES == 0 && VG_STARTED(self_p))))            \
__CPROVER_ensures(!VG_WAS_INIT || self_p->state == VG_INIT               \
                  || VG_BODY(self_p->state) || self_p->state == VG_FAILED) \
__CPROVER_ensures(self_p->patch_reader.destroy == NULL                   \
                  || !VG_WAS_INIT                                        \
                  || VG_DESTROY_VALID(self_p->patch_reader.destroy))     \
/* termination */                                                        \
__CPROVER_ensures(VG_RES != 0                                            \
                  || VG_RANK(self_p) < VG_RANK_(VG_OLD(self_p->state), VG_OLD(self_p->init_state)) \
                  || (VG_RANK(self_p) == VG_RANK_(VG_OLD(self_p->state), VG_OLD(self_p->init_state)) \
                      && VG_RANK2(self_p) < VG_RANK2_(VG_OLD(self_p->state), VG_OLD(self_p->chunk_size), VG_OLD(vg.fuel))))

#endif
