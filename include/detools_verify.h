/* Included by the sources when DETOOLS_VERIFY is defined: maps each loop
   to its contract. A unit defines the contracts it needs before including
   the source; all others are empty. */
#ifndef DETOOLS_VERIFY_H
#define DETOOLS_VERIFY_H
#define DETOOLS_LOOP_CONTRACT(name, ...) DETOOLS_LOOP_##name(__VA_ARGS__)
#ifndef DETOOLS_LOOP_process
#define DETOOLS_LOOP_process(...)
#endif
#ifndef DETOOLS_LOOP_finalize
#define DETOOLS_LOOP_finalize(...)
#endif
#ifndef DETOOLS_LOOP_in_place_process
#define DETOOLS_LOOP_in_place_process(...)
#endif
#ifndef DETOOLS_LOOP_in_place_finalize
#define DETOOLS_LOOP_in_place_finalize(...)
#endif
#ifndef DETOOLS_LOOP_callbacks_process
#define DETOOLS_LOOP_callbacks_process(...)
#endif
#ifndef DETOOLS_LOOP_in_place_callbacks_process
#define DETOOLS_LOOP_in_place_callbacks_process(...)
#endif
#ifndef DETOOLS_LOOP_shift_segments
#define DETOOLS_LOOP_shift_segments(...)
#endif
#ifndef DETOOLS_LOOP_shift_segment
#define DETOOLS_LOOP_shift_segment(...)
#endif
#ifndef DETOOLS_LOOP_crle_repeat
#define DETOOLS_LOOP_crle_repeat(...)
#endif
#ifndef DETOOLS_LOOP_crle_decompress
#define DETOOLS_LOOP_crle_decompress(...)
#endif
#ifndef DETOOLS_LOOP_heatshrink_decompress
#define DETOOLS_LOOP_heatshrink_decompress(...)
#endif
#ifndef DETOOLS_LOOP_heatshrink_poll
#define DETOOLS_LOOP_heatshrink_poll(...)
#endif
#ifndef DETOOLS_LOOP_heatshrink_backref
#define DETOOLS_LOOP_heatshrink_backref(...)
#endif
#ifndef DETOOLS_LOOP_bsdiff_matchlen
#define DETOOLS_LOOP_bsdiff_matchlen(...)
#endif
#ifndef DETOOLS_LOOP_bsdiff_lenf
#define DETOOLS_LOOP_bsdiff_lenf(...)
#endif
#ifndef DETOOLS_LOOP_bsdiff_lenb
#define DETOOLS_LOOP_bsdiff_lenb(...)
#endif
#ifndef DETOOLS_LOOP_bsdiff_overlap
#define DETOOLS_LOOP_bsdiff_overlap(...)
#endif
#ifndef DETOOLS_LOOP_bsdiff_diff
#define DETOOLS_LOOP_bsdiff_diff(...)
#endif
#ifndef DETOOLS_LOOP_bsdiff_extra
#define DETOOLS_LOOP_bsdiff_extra(...)
#endif
#ifndef DETOOLS_LOOP_bsdiff_records
#define DETOOLS_LOOP_bsdiff_records(...)
#endif
#ifndef DETOOLS_LOOP_bsdiff_scan
#define DETOOLS_LOOP_bsdiff_scan(...)
#endif
#ifndef DETOOLS_LOOP_bsdiff_scsc
#define DETOOLS_LOOP_bsdiff_scsc(...)
#endif
#ifndef DETOOLS_LOOP_bsdiff_add
#define DETOOLS_LOOP_bsdiff_add(...)
#endif
#endif
