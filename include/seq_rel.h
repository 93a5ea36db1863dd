/* Relation between a struct detools_apply_patch_t past its header and the
   specification automaton. Expression macros, as loop invariants may not
   call functions. */
#ifndef SEQ_REL_H
#define SEQ_REL_H

#define VG_ST(x) detools_apply_patch_state_##x##_t
#define VG_UF detools_unpack_usize_state_first_t
#define VG_UC detools_unpack_usize_state_consecutive_t

/* Partially received size. */
#define VG_SIZE_REL(z)                                                   \
    (vg.vcount == 0                                                      \
     ? (z).state == VG_UF                                                \
     : (vg.vcount >= 1 && vg.vcount <= 4                                 \
        && (vg.ps == PS_DF || vg.ps == PS_DS                             \
            || vg.ps == PS_ES || vg.ps == PS_AD)                         \
        && (z).state == VG_UC                                            \
        && (z).offset == 6 + 7 * (vg.vcount - 1)                         \
        && (z).value >= 0                                                \
        && (z).value < (1 << (6 + 7 * (vg.vcount - 1)))                  \
        && vg.vval == (z).value                                          \
        && vg.vneg == (z).is_signed))

#define VG_DATA_REL(cs, data_ps, next_ps)                                \
    ((cs) == 0                                                           \
     ? (vg.ps == (next_ps) && vg.vcount == 0)                            \
     : (vg.ps == (data_ps) && vg.rem == (int64_t)(cs) && vg.rem > 0      \
        && vg.to >= 0 && vg.to <= vg.to_size && vg.to_size <= VG_MAX27   \
        && vg.rem <= vg.to_size - vg.to))

#define VG_PHASE_REL(st, cs)                                             \
    ((st) == VG_ST(dfpatch_size) ? vg.ps == PS_DF                        \
     : (st) == VG_ST(diff_size) ? vg.ps == PS_DS                         \
     : (st) == VG_ST(diff_data) ? VG_DATA_REL(cs, PS_DD, PS_ES)          \
     : (st) == VG_ST(extra_size) ? vg.ps == PS_ES                        \
     : (st) == VG_ST(extra_data) ? VG_DATA_REL(cs, PS_ED, PS_AD)         \
     : (st) == VG_ST(adjustment) ? vg.ps == PS_AD                        \
     : (st) == VG_ST(done) ? vg.ps == PS_DONE                            \
     : 0)

/* Everything the patch data decoded so far determines has been delivered. */
#define VG_DELIVERED                                                     \
    (vg.to_real == vg.to                                                 \
     && (vg.ps == PS_DONE || vg.from_real == vg.from)                    \
     && vg.wit_set == (vg.wit < vg.to)                                   \
     && vg.wit_out == vg.wit_set                                         \
     && vg.to >= 0 && vg.to <= vg.to_size && vg.to_size <= VG_MAX27      \
     && vg.from > -VG_FROM_MAX && vg.from < VG_FROM_MAX                  \
     && (vg.ps != PS_DONE || vg.to == vg.to_size))

/* The image is complete. */
#define VG_DONE_FACTS(s)                                                 \
    (vg.ps == PS_DONE && vg.to_real == vg.to_size                        \
     && (int64_t)(s)->to_size == vg.to_size                              \
     && vg.to_size >= 0 && vg.to_size <= VG_MAX27                        \
     && vg.wit_out == (vg.wit < vg.to_size))

#ifdef VG_OPAQUE
/* For callers the relation is opaque, apart from what it says about a
   complete image (unit seq_lemma). Only a step changes its truth: it does
   not depend on what callers modify, the chunk and the patch offset. */
#define VG_SEQ_REL(s)                                                    \
    (vg.rel && ((s)->state != VG_ST(done) || VG_DONE_FACTS(s)))
#else
#define VG_SEQ_REL(s)                                                    \
    (VG_PHASE_REL((s)->state, (s)->chunk_size)                           \
     && (vg.ps == PS_DONE || VG_SIZE_REL((s)->patch_reader.size))        \
     && (int64_t)(s)->to_size == vg.to_size                              \
     && (int64_t)(s)->to_offset == vg.to                                 \
     && (s)->from_offset == (int)vg.from                                 \
     && VG_DELIVERED)
#endif

#define VG_BODY(st) ((st) == VG_ST(dfpatch_size) || (st) == VG_ST(diff_size) \
                     || (st) == VG_ST(diff_data) || (st) == VG_ST(extra_size) \
                     || (st) == VG_ST(extra_data)                        \
                     || (st) == VG_ST(adjustment) || (st) == VG_ST(done))
#define VG_FAILED VG_ST(failed)
#define VG_DONE VG_ST(done)
#define VG_INIT VG_ST(init)

#endif
