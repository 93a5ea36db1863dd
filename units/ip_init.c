/* One step of in-place application while reading the header, for every
   header field: its value by definition, what is refused, no callback
   before the header is complete, and the move of the old image at its
   end (vg_shift(): unit ip_shift). */
#include "/repo/c/detools.h"
#include "ip.h"
#include "readers_init.h"
#define VG_ENFORCE_STEP
#define VG_DESTROY_VALID(f) vg_is_destroy(f)
static bool vg_is_destroy(int (*f)(struct detools_apply_patch_patch_reader_t *));
#include "ip_contract.h"

static int apply_patch_in_place_process_once(
    struct detools_apply_patch_in_place_t *self_p)
VG_IP_ONCE_CONTRACT;

static struct detools_apply_patch_in_place_t s;
static int vg_shift_res;

/* in_place_is_header_ok(): unit ip_header. */
static bool vg_ok;
bool vg_header_ok(struct detools_apply_patch_in_place_t *self_p, size_t to_size)
{
    VG_ASSERT(self_p == &s && to_size == s.to_size, "this header is looked at");
    vg.oks++;
    VG_ASSUME(!vg_ok || (s.segment_size >= 1 && s.shift_size <= s.memory_size
                         && to_size <= s.memory_size));

    return (vg_ok);
}

int vg_shift(struct detools_apply_patch_in_place_t *self_p,
             size_t memory_size,
             size_t from_size)
{
    int moves;

    vg.shifts++;
    VG_ASSERT(self_p == &s && memory_size == s.memory_size && from_size == s.from_size,
              "the move is made as the header says");
    VG_ASSERT(s.segment_size >= 1 && s.segment_size <= VG_MAX27
              && s.memory_size <= VG_MAX27 && s.shift_size <= s.memory_size
              && s.from_size <= VG_MAX27,
              "sizes of the move are consistent");
    VG_ASSERT(vg.oks == 1 && vg_ok, "the sizes were found consistent");
    VG_ASSERT(s.ongoing_step == 1, "the move begins with step one");
    VG_ASSUME(moves >= 0 && moves <= VG_MAX27);
    s.ongoing_step += moves;

    return (vg_shift_res);
}

#include "/repo/c/detools.c"
#include "readers_bind.h"

#define VG_FIELD (VG_CASE == 1 ? s.memory_size                           \
                  : VG_CASE == 2 ? s.segment_size                        \
                  : VG_CASE == 3 ? s.shift_size : s.from_size)

void harness(void)
{
    int res;
    size_t size;
    size_t left;
    size_t used;
    struct detools_apply_patch_chunk_t c;
    struct vg_header_size_t h;
    struct detools_apply_patch_in_place_t s0;
    struct vg_ip_t vg0;
    uint8_t byte;
    uint8_t *buf_p;
    int compression;
    bool okay;

    __CPROVER_havoc_object(&s);
    __CPROVER_havoc_object(&vg);
    s.state = detools_apply_patch_state_init_t;
    s.init_state = VG_CASE;
    s.mem_read = vg_mem_read;
    s.mem_write = vg_mem_write;
    s.mem_erase = vg_mem_erase;
    s.step_set = (vg.has_set ? vg_step_set : NULL);
    s.step_get = (vg.has_get ? vg_step_get : NULL);
    s.patch_reader.destroy = NULL;
    vg.shifts = 0;
    vg.oks = 0;
    VG_ASSUME(vg_shift_res <= 0 && vg_shift_res != -DETOOLS_ALREADY_DONE);
    VG_ASSUME(size >= 1 && size <= VG_MAX27);
    buf_p = malloc(size);
    VG_ASSUME(buf_p != NULL);
    s.chunk.buf_p = buf_p;
    s.chunk.size = size;
    VG_ASSUME(s.chunk.offset <= s.chunk.size);
    VG_ASSUME(VG_IP_READY(&s));
    vg0 = vg;
    c = s.chunk;
    s0.memory_size = s.memory_size;
    s0.segment_size = s.segment_size;
    s0.shift_size = s.shift_size;
    s0.from_size = s.from_size;
    left = c.size - c.offset;
    if (left > 0) {
        byte = buf_p[c.offset];
    }
#if VG_CASE > 0
    vg_header_size(&h, &s.size, &s.chunk);
#endif
    compression = s.compression;

    res = apply_patch_in_place_process_once(&s);

    VG_ASSERT(vg.stored == vg0.stored && vg.to_real == vg0.to_real
              && vg.io_failed == vg0.io_failed && vg.erased == vg0.erased,
              "the header is read without any callback");
    VG_ASSERT(VG_CASE == 5 || vg.shifts == 0, "nothing is moved before the header is complete");
    VG_ASSERT((VG_CASE == 1 || s.memory_size == s0.memory_size)
              && (VG_CASE == 2 || s.segment_size == s0.segment_size)
              && (VG_CASE == 3 || s.shift_size == s0.shift_size)
              && (VG_CASE == 4 || s.from_size == s0.from_size),
              "other header fields stay");
#if VG_CASE == 0
    /* compression in bits 0..3, type in bits 4..6, in-place is 1 */
    if (left == 0) {
        VG_ASSERT(res == -DETOOLS_SHORT_HEADER, "finalize without a header fails");
    } else if (((byte >> 4) & 7) == 1) {
        VG_COVER("in-place header");
        VG_ASSERT(res == 0, "in-place patch type is accepted");
        VG_ASSERT(s.state == VG_INIT && s.init_state == 1 && s.size.state == VG_UF,
                  "the memory size follows");
        VG_ASSERT(s.compression == (byte & 15), "compression field");
        VG_ASSERT(s.chunk.offset == c.offset + 1, "one byte consumed");
    } else {
        VG_COVER("other header");
        VG_ASSERT(res == -DETOOLS_BAD_PATCH_TYPE, "other patch types are refused");
    }
#else
    if (h.res == 1) {
        VG_COVER("partial size");
        VG_ASSERT(res == 1, "header size cut by the end of the chunk awaits more");
        VG_ASSERT(s.state == VG_INIT && s.init_state == VG_CASE
                  && s.compression == compression, "still at this size");
        VG_ASSERT(vg_header_state(&s.size, &h), "partial header size is kept");
        VG_ASSERT(s.patch_reader.destroy == NULL, "nothing to release yet");
    } else if (h.res < 0) {
        VG_COVER("too big");
        VG_ASSERT(res == h.res, "header size too big is refused");
    } else {
#if VG_CASE < 5
        VG_COVER("size complete");
        VG_ASSERT(res == 0 && s.state == VG_INIT && s.init_state == VG_CASE + 1
                  && s.size.state == VG_UF && s.compression == compression,
                  "the next size follows");
        VG_ASSERT(VG_FIELD == (size_t)h.value, "header field as encoded");
        VG_ASSERT(s.chunk.offset == c.offset + h.used, "exactly the size is consumed");
#else
        used = s.patch_offset - c.size + c.offset + h.used;
        okay = (h.value == 0 || (vg.oks > 0 && vg_ok));
        if (!VG_BUILT_IN(compression)) {
            VG_COVER("unknown compression");
            VG_ASSERT(res == -DETOOLS_BAD_COMPRESSION && vg.shifts == 0,
                      "compression not built in is refused");
            VG_ASSERT(s.patch_reader.destroy == NULL, "nothing to release");
        } else if (vg_init_may_fail && compression == 1) {
            VG_ASSERT(res == -DETOOLS_LZMA_INIT && vg.shifts == 0,
                      "decoder that cannot start is reported");
            VG_ASSERT(s.patch_reader.destroy == NULL, "nothing to release");
        } else if (!okay) {
            VG_COVER("inconsistent header");
            VG_ASSERT(res == -DETOOLS_CORRUPT_PATCH && vg.shifts == 0,
                      "inconsistent header is refused, the memory untouched");
        } else if (h.value > 0 && vg_shift_res < 0) {
            VG_COVER("move failed");
            VG_ASSERT(res == vg_shift_res && vg.shifts == 1, "failure of the move is handed on");
        } else {
            VG_COVER("header complete");
            VG_ASSERT(res == 0, "header accepted");
            VG_ASSERT(vg.shifts == (h.value > 0), "the old image is moved once");
            VG_ASSERT(s.to_size == (size_t)h.value, "image size as encoded");
            VG_ASSERT(s.chunk.offset == c.offset + h.used, "exactly the header is consumed");
            VG_ASSERT(s.state == (h.value > 0 ? VG_ST(dfpatch_size) : VG_ST(done)),
                      "empty image is complete at once");
            VG_ASSERT(vg_reader_is_fresh(&s.patch_reader, compression, s.patch_size - used),
                      "the reader for this compression is at its beginning");
            VG_ASSERT(s.patch_reader.patch_chunk_p == &s.chunk,
                      "the reader reads the chunks given to process");
        }
#endif
    }
#endif
}
