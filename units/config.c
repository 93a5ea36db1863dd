/* Choice of the patch reader, for every compression field, in one build
   configuration per case (bit 0 none, 1 LZMA, 2 CRLE, 3 heatshrink). */
#include "vg.h"
#include "/repo/c/detools.h"
#include "readers_init.h"
#include "/repo/c/detools.c"
#include "readers_bind.h"

static struct detools_apply_patch_patch_reader_t r;
static struct detools_apply_patch_chunk_t chunk;

void harness(void)
{
    int res;
    int compression;
    size_t left;

    __CPROVER_havoc_object(&r);
    r.destroy = NULL;
    VG_ASSUME(compression >= 0 && compression <= 15);
    res = patch_reader_init(&r, &chunk, left, compression);
    VG_COVER("any");
    if (!VG_BUILT_IN(compression)) {
        VG_ASSERT(res == -DETOOLS_BAD_COMPRESSION, "compression left out of the build is refused");
        VG_ASSERT(r.destroy == NULL, "nothing to release");
    } else if (vg_init_may_fail && compression == 1) {
        VG_ASSERT(res == -DETOOLS_LZMA_INIT, "decoder that cannot start is reported");
        VG_ASSERT(r.destroy == NULL, "nothing to release");
    } else {
        VG_ASSERT(res == 0, "compression built in is accepted");
        VG_ASSERT(r.patch_chunk_p == &chunk && vg_reader_is_fresh(&r, compression, left),
                  "the reader for this compression is at its beginning");
    }
}
