/* One step of sequential application while reading the header: header
   fields against their definition, choice of the patch reader, no
   callback. Run for both header states, and for every combination of
   compressions built in. */
#include "/repo/c/detools.h"
#include "seq.h"
#include "readers_init.h"
#define VG_ENFORCE_STEP
#define VG_DESTROY_VALID(f) vg_is_destroy(f)
static bool vg_is_destroy(int (*f)(struct detools_apply_patch_patch_reader_t *));
#include "seq_contract.h"

static int apply_patch_process_once(struct detools_apply_patch_t *self_p)
VG_SEQ_ONCE_CONTRACT;

#include "/repo/c/detools.c"
#include "readers_bind.h"

static struct detools_apply_patch_t s;

void harness(void)
{
    int res;
    size_t size;
    size_t left;
    size_t used;
    struct detools_apply_patch_chunk_t c;
    struct vg_header_size_t h;
    struct vg_seq_t vg0;
    int want;
    uint8_t byte;
    uint8_t *buf_p;
    int compression;

    __CPROVER_havoc_object(&s);
    __CPROVER_havoc_object(&vg);
    s.state = detools_apply_patch_state_init_t;
    s.init_state = VG_CASE;
    s.from_read = vg_from_read;
    s.from_seek = vg_from_seek;
    s.to_write = vg_to_write;
    s.patch_reader.destroy = NULL;
    VG_ASSUME(size >= 1 && size <= VG_MAX27);
    buf_p = malloc(size);
    VG_ASSUME(buf_p != NULL);
    s.chunk.buf_p = buf_p;
    s.chunk.size = size;
    VG_ASSUME(s.chunk.offset <= s.chunk.size);
    VG_ASSUME(VG_SEQ_READY(&s));
    vg0 = vg;
    c = s.chunk;
    left = c.size - c.offset;
    if (left > 0) {
        byte = buf_p[c.offset];
    }
#if VG_CASE == 1
    vg_header_size(&h, &s.size, &s.chunk);
#endif
    compression = s.compression;

    res = apply_patch_process_once(&s);

    VG_ASSERT(vg.to_real == vg0.to_real && vg.from_real == vg0.from_real
              && vg.io_failed == vg0.io_failed,
              "the header is read without any callback");
#if VG_CASE == 0
    /* compression in bits 0..3, type in bits 4..6, sequential is 0 */
    if (left == 0) {
        VG_ASSERT(res == -DETOOLS_SHORT_HEADER, "finalize without a header fails");
    } else if (((byte >> 4) & 7) == 0) {
        VG_COVER("sequential header");
        VG_ASSERT(res == 0, "sequential patch type is accepted");
        VG_ASSERT(s.state == detools_apply_patch_state_init_t
                  && s.init_state == detools_apply_patch_init_state_to_size_t
                  && s.size.state == detools_unpack_usize_state_first_t,
                  "the image size follows");
        VG_ASSERT(s.compression == (byte & 15), "compression field");
        VG_ASSERT(s.chunk.offset == c.offset + 1, "one byte consumed");
    } else {
        VG_COVER("other header");
        VG_ASSERT(res == -DETOOLS_BAD_PATCH_TYPE, "other patch types are refused");
    }
#else
    used = s.patch_offset - c.size + c.offset + h.used;
    if (h.res == 1) {
        VG_COVER("partial size");
        VG_ASSERT(res == 1, "header size cut by the end of the chunk awaits more");
        VG_ASSERT(s.state == detools_apply_patch_state_init_t
                  && s.init_state == detools_apply_patch_init_state_to_size_t
                  && s.compression == compression,
                  "still in the header");
        VG_ASSERT(vg_header_state(&s.size, &h), "partial header size is kept");
        VG_ASSERT(s.patch_reader.destroy == NULL, "nothing to release yet");
    } else if (h.res < 0) {
        VG_COVER("too big");
        VG_ASSERT(res == h.res, "header size too big is refused");
    } else if (!VG_BUILT_IN(compression)) {
        VG_COVER("unknown compression");
        VG_ASSERT(res == -DETOOLS_BAD_COMPRESSION, "compression not built in is refused");
        VG_ASSERT(s.patch_reader.destroy == NULL, "nothing to release");
    } else if (vg_init_may_fail && compression == 1) {
        VG_ASSERT(res == -DETOOLS_LZMA_INIT, "decoder that cannot start is reported");
        VG_ASSERT(s.patch_reader.destroy == NULL, "nothing to release");
    } else {
        VG_COVER("header complete");
        VG_ASSERT(res == 0, "header accepted");
        VG_ASSERT(s.to_size == (size_t)h.value, "image size as encoded");
        VG_ASSERT(s.chunk.offset == c.offset + h.used, "exactly the header is consumed");
        VG_ASSERT(s.state == (h.value > 0
                              ? detools_apply_patch_state_dfpatch_size_t
                              : detools_apply_patch_state_done_t),
                  "empty image is complete at once");
        VG_ASSERT(vg_reader_is_fresh(&s.patch_reader, compression,
                                     s.patch_size - used),
                  "the reader for this compression is at its beginning");
        VG_ASSERT(s.patch_reader.patch_chunk_p == &s.chunk,
                  "the reader reads the chunks given to process");
    }
#endif
}
