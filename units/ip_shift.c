/* in_place_shift_memory(): the old image is moved to its place, segment by
   segment from the last one, each byte once, nothing overwritten before it
   has been copied. Memory and steps through the functions of unit ip_mem. */
#include "/repo/c/detools.h"
#include "ip.h"

/* vg.prod is the number of bytes not moved yet, a multiple of the segment
   size: vg.index segments. vg.to_size is all that is moved. */
/* The address of the last segment, as the code has it; the lemma is that
   of unit ip_lemma, where a segment is left to move. */
#define VG_FIRST ((number_of_segments - 1) * self_p->segment_size)
#define VG_SHIFT_LEMMA (VG_FIRST == (size_t)(vg.to_size - vg.seg))
#define VG_SHIFT_INV(s, rd, wr, i)                                       \
    ((s)->shift_size == (size_t)vg.shift && (s)->segment_size == (size_t)vg.seg \
     && vg.index >= 0 && vg.index <= vg.moves                            \
     && (i) == (size_t)(vg.moves - vg.index)                             \
     && (vg.index == 0 ? vg.prod == 0                                    \
         : (vg.prod >= vg.seg && (wr) == (rd) + (size_t)vg.shift         \
            && (rd) == VG_FIRST - (size_t)vg.to))                        \
     && vg.prod <= vg.to_size && vg.to == vg.to_size - vg.prod                                                    \
     && !vg.erased && vg.to_real == 0 && vg.read_left == 0 && !vg.io_failed \
     && (s)->ongoing_step == vg.step && vg.step == 1 + vg.moves - vg.index \
     && vg.wit_out == (vg.wit >= vg.prod))
#define VG_SHIFT_FACTS                                                   \
    (vg.moves >= 0 && vg.moves <= VG_MAX27                               \
     && vg.seg >= 1 && vg.seg <= VG_MAX27 && vg.shift >= vg.seg          \
     && vg.shift <= vg.memory && vg.memory <= VG_MAX27                   \
     && vg.to_size >= 0 && vg.to_size <= vg.memory - vg.shift            \
     && vg.wit >= 0 && vg.wit < vg.to_size)

#define DETOOLS_LOOP_shift_segments(self_p, res, i)                      \
    __CPROVER_assigns(res, i, offset, size, read_address, write_address, \
                      __CPROVER_object_whole(buf), vg, self_p->ongoing_step) \
    __CPROVER_loop_invariant(i <= number_of_segments && VG_SHIFT_FACTS   \
                             && number_of_segments == (size_t)vg.moves   \
                             && VG_SHIFT_INV(self_p, read_address, write_address, i)) \
    __CPROVER_decreases(number_of_segments - i)
#define DETOOLS_LOOP_shift_segment(self_p, res, offset)                  \
    __CPROVER_assigns(res, offset, size, __CPROVER_object_whole(buf), vg) \
    __CPROVER_loop_invariant(offset <= self_p->segment_size              \
        && VG_SHIFT_FACTS && vg.prod >= 0 && vg.prod <= vg.to_size - vg.seg \
        && vg.erased && !vg.io_failed                  \
        && vg.to_real >= 0 && offset == (size_t)vg.to_real && vg.read_left == 0 \
        && vg.index == __CPROVER_loop_entry(vg.index)                    \
        && vg.prod == __CPROVER_loop_entry(vg.prod)                      \
        && vg.step == __CPROVER_loop_entry(vg.step)                      \
        && vg.moves == __CPROVER_loop_entry(vg.moves)                    \
        && vg.seg == __CPROVER_loop_entry(vg.seg)                        \
        && vg.shift == __CPROVER_loop_entry(vg.shift)                    \
        && vg.memory == __CPROVER_loop_entry(vg.memory)                  \
        && vg.to_size == __CPROVER_loop_entry(vg.to_size)                \
        && vg.to == __CPROVER_loop_entry(vg.to)                          \
        && vg.wit == __CPROVER_loop_entry(vg.wit)                        \
        && vg.wit_old == __CPROVER_loop_entry(vg.wit_old)                \
        && vg.wit_out == ((vg.wit >= vg.prod + vg.seg)                   \
                          || (vg.wit >= vg.prod && vg.wit < vg.prod + vg.to_real))) \
    __CPROVER_decreases(self_p->segment_size - offset)

/* Proved first, then used. */
#define VG_LEMMA(cond, name) VG_ASSERT(cond, name); VG_ASSUME(cond)

static int vg_fail(void)
{
    int res;

    if (res < 0) {
        VG_ASSUME(res == -DETOOLS_IO_FAILED || res == -DETOOLS_STEP_GET_FAILED
                  || res == -DETOOLS_STEP_SET_FAILED);
        vg.io_failed = true;
        vg.step_res = res;

        return (res);
    }

    return (0);
}

int vg_sh_erase(struct detools_apply_patch_in_place_t *self_p, uintptr_t addr, size_t size)
{
    VG_ASSERT(!vg.io_failed, "nothing is done after a failure");
    VG_ASSERT(!vg.erased && vg.index > 0, "one segment after the other is moved");
    VG_ASSUME(vg.index > 0);
    /* unit ip_lemma: vg.prod is a multiple, so it stays one */
    VG_ASSUME(vg.index == 1 ? vg.prod == vg.seg : vg.prod - vg.seg >= vg.seg);
    vg.prod -= vg.seg;
    vg.to += vg.seg;
    vg.index--;
    VG_ASSERT(addr == (size_t)vg.prod + (size_t)vg.shift && size == (size_t)vg.seg,
              "exactly the place of the segment is erased");
    VG_LEMMA(vg.prod + vg.seg <= vg.to_size, "within what is moved");
    VG_LEMMA(vg.to_size + vg.shift <= vg.memory, "all fits the memory");
    VG_ASSERT(vg.prod + vg.shift + vg.seg <= vg.memory, "the erase is inside the memory");
    VG_ASSERT(vg.prod + vg.shift >= vg.prod + vg.seg,
              "nothing is erased that has not been moved yet");
    vg.erased = true;
    vg.to_real = 0;

    return (vg_fail());
}

int vg_sh_read(struct detools_apply_patch_in_place_t *self_p,
               void *dst_p, uintptr_t src, size_t size)
{
    int at;

    VG_ASSERT(!vg.io_failed, "nothing is done after a failure");
    VG_ASSERT(vg.erased && vg.read_left == 0, "the segment is erased before it is moved");
    VG_ASSERT(size >= 1 && size <= (size_t)(vg.seg - vg.to_real)
              && src == (size_t)(vg.prod + vg.to_real),
              "the next bytes of the segment are read");
    VG_ASSUME(size >= 1 && size <= (size_t)(vg.seg - vg.to_real));
    VG_ASSERT(vg.prod + vg.to_real + (int)size <= vg.memory, "memory read is inside the memory");
    VG_ASSERT(__CPROVER_w_ok(dst_p, size), "buffer to read memory to is big enough");

    /* Any other bytes: the buffer holds anything when an iteration begins. */
    at = vg.prod + vg.to_real;

    if (vg.wit >= at && vg.wit < at + (int)size) {
        ((uint8_t *)dst_p)[vg.wit - at] = vg.wit_old;
    }

    vg.read_left = (int)size;

    return (vg_fail());
}

int vg_sh_write(struct detools_apply_patch_in_place_t *self_p,
                uintptr_t dst, void *src_p, size_t size)
{
    int at;

    VG_ASSERT(!vg.io_failed, "nothing is done after a failure");
    at = vg.prod + vg.to_real;
    VG_ASSERT(vg.erased && size == (size_t)vg.read_left
              && dst == (size_t)at + (size_t)vg.shift,
              "the bytes read are written to their place");
    VG_ASSUME(size == (size_t)vg.read_left);
    VG_LEMMA(vg.to_real + vg.read_left <= vg.seg, "within the segment");
    VG_LEMMA(vg.prod + vg.seg <= vg.to_size, "within what is moved");
    VG_LEMMA(vg.to_size + vg.shift <= vg.memory, "all fits the memory");
    VG_LEMMA(vg.prod + vg.seg + vg.shift <= vg.memory, "the segment fits the memory");
    VG_LEMMA(at + vg.read_left <= vg.prod + vg.seg, "within the segment");
    VG_ASSERT(at + vg.shift + vg.read_left <= vg.memory, "the write is inside the memory");
    VG_ASSERT(__CPROVER_r_ok(src_p, size), "buffer to write to memory is valid");

    if (vg.wit >= at && vg.wit < at + (int)size) {
        VG_ASSERT(((uint8_t *)src_p)[vg.wit - at] == vg.wit_old,
                  "each byte moved is the byte of the old image");
        vg.wit_out = true;
    }

    vg.to_real += (int)size;
    vg.read_left = 0;

    return (vg_fail());
}

int vg_sh_next(struct detools_apply_patch_in_place_t *self_p)
{
    VG_ASSERT(!vg.io_failed, "nothing is done after a failure");
    VG_ASSERT(vg.erased && vg.to_real == vg.seg && vg.read_left == 0,
              "a step is complete when the whole segment is moved");
    vg.erased = false;
    vg.to_real = 0;
    vg.step++;
    self_p->ongoing_step++;

    return (vg_fail());
}

/* DIV_CEIL(): unit ip_ceil. */
static size_t vg_x;
static size_t vg_div_ceil(size_t n, size_t d)
{
    VG_ASSERT(n == vg_x && d == (size_t)vg.seg,
              "as many segments are moved as the old image has or fit");

    return ((size_t)vg.moves);
}

#include "/repo/c/detools.c"

static struct detools_apply_patch_in_place_t s;

void harness(void)
{
    int res;
    size_t m;
    size_t f;
    size_t n;
    size_t s0;

    __CPROVER_havoc_object(&s);
    __CPROVER_havoc_object(&vg);
    /* below 2^27, so that the upper bits are constants */
    s.segment_size &= VG_MAX27;
    s.shift_size &= VG_MAX27;
    m &= VG_MAX27;
    f &= VG_MAX27;
    n &= VG_MAX27;
    VG_ASSUME(s.segment_size >= 1);
    VG_ASSUME(s.shift_size <= m);
    VG_ASSUME(s.shift_size == 0 || s.shift_size >= s.segment_size);
    VG_ASSUME(s.ongoing_step == 1);
    vg.seg = (int)s.segment_size;
    vg.shift = (int)s.shift_size;
    vg.memory = (int)m;
    vg.to_size = 0;
    vg.moves = 0;
    vg.wit_out = false;

    if (s.shift_size > 0) {
        /* What is moved: whole segments covering as much of the old image
           as fits. */
        vg_x = (f < m - s.shift_size ? f : m - s.shift_size);
        VG_ASSUME(n <= vg_x);
        VG_ASSUME(vg.prod >= 0 && vg.prod <= VG_MAX27);
        /* instances of the lemmas of unit ip_lemma */
        VG_ASSUME((size_t)vg.prod >= vg_x && (size_t)vg.prod <= m - s.shift_size);
        VG_ASSUME(n == 0 ? vg.prod == 0 : vg.prod >= vg.seg);
        vg.moves = (int)n;
        vg.to_size = vg.prod;
    } else {
        vg.prod = 0;
    }

    vg.to = 0;
    vg.index = vg.moves;
    vg.step = 1;
    vg.erased = false;
    vg.to_real = 0;
    vg.read_left = 0;
    vg.io_failed = false;
    VG_ASSUME(vg.to_size == 0 || (vg.wit >= 0 && vg.wit < vg.to_size));
    s0 = s.shift_size;
    res = in_place_shift_memory(&s, m, f);
    VG_ASSERT(res <= 0, "result");
    VG_ASSERT(s.shift_size == s0 && s.segment_size == (size_t)vg.seg, "the sizes stay");

    if (res == 0) {
        VG_ASSERT(!vg.io_failed && vg.index == 0 && !vg.erased, "all segments are moved");
        VG_ASSERT(vg.to_size == 0 || vg.wit_out, "every byte of the old image is in its place");
        VG_ASSERT(s.ongoing_step == 1 + vg.moves, "each segment is one step");
    } else {
        VG_ASSERT(vg.io_failed && res == vg.step_res, "failures are handed on");
    }

    if (res == 0 && vg.moves > 1) { VG_COVER("old image moved"); }
    if (res == 0 && vg.moves == 0) { VG_COVER("nothing to move"); }
    if (res < 0) { VG_COVER("move failed"); }
}
