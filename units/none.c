/* The reader of uncompressed patch data: the bytes of the chunks as they
   are, never more than announced, and complete exactly when all announced
   bytes were taken. VG_CASE 0: reading, 1: the beginning and the end. */
#include "/repo/c/detools.h"
#include "vg.h"

static struct detools_apply_patch_patch_reader_t r;
static struct detools_apply_patch_chunk_t chunk;
static size_t g_wit;
#define NONE (self_p->compression.none)
/* 2^62 bytes of patch data would be needed to get there. */
#define NONE_OK(n)                                                       \
    ((n).patch_offset <= (n).patch_size && (n).patch_offset < ((size_t)1 << 62))

#if VG_CASE == 0
static int patch_reader_none_decompress(
    struct detools_apply_patch_patch_reader_t *self_p,
    uint8_t *buf_p,
    size_t *size_p)
__CPROVER_requires(NONE_OK(NONE) && chunk.offset <= chunk.size && self_p->patch_chunk_p == &chunk)
__CPROVER_requires(*size_p >= 1 && *size_p <= 128)
__CPROVER_assigns(NONE.patch_offset, chunk.offset, *size_p, __CPROVER_object_whole(buf_p))
/* more than announced is refused, and only that */
__CPROVER_ensures((__CPROVER_return_value < 0)
                  == (__CPROVER_old(*size_p)
                      > NONE.patch_size - __CPROVER_old(NONE.patch_offset)))
__CPROVER_ensures(__CPROVER_return_value >= 0
                  || (__CPROVER_return_value == -DETOOLS_CORRUPT_PATCH
                      && chunk.offset == __CPROVER_old(chunk.offset)))
/* more input is asked for exactly when there is none */
__CPROVER_ensures(__CPROVER_return_value < 0
                  || __CPROVER_return_value
                     == (__CPROVER_old(chunk.offset) == chunk.size ? 1 : 0))
__CPROVER_ensures(__CPROVER_return_value == 0
                  || NONE.patch_offset == __CPROVER_old(NONE.patch_offset))
/* the bytes at the offset, each once */
__CPROVER_ensures(__CPROVER_return_value != 0
                  || (*size_p >= 1 && *size_p <= __CPROVER_old(*size_p)
                      && chunk.offset == __CPROVER_old(chunk.offset) + *size_p
                      && NONE.patch_offset == __CPROVER_old(NONE.patch_offset) + *size_p
                      && NONE.patch_offset <= NONE.patch_size))
__CPROVER_ensures(__CPROVER_return_value != 0 || g_wit >= *size_p
                  || buf_p[g_wit] == chunk.buf_p[chunk.offset - *size_p + g_wit])
__CPROVER_ensures(chunk.offset <= chunk.size)
;
#endif

#include "/repo/c/detools.c"

void harness(void)
{
    uint8_t *in_p;
    uint8_t *out_p;
    size_t asked;
    size_t announced;
    int res;
    bool fresh;

    __CPROVER_havoc_object(&r);
    __CPROVER_havoc_object(&chunk);
    __CPROVER_havoc_object(&g_wit);
    r.patch_chunk_p = &chunk;
#if VG_CASE == 0
    VG_ASSUME(chunk.size <= VG_MAX27 && chunk.offset <= chunk.size);
    in_p = malloc(chunk.size);
    VG_ASSUME(in_p != NULL);
    chunk.buf_p = in_p;
    VG_ASSUME(asked >= 1 && asked <= 128);
    out_p = malloc(asked);
    VG_ASSUME(out_p != NULL);
    res = patch_reader_none_decompress(&r, out_p, &asked);
    if (res == 0) { VG_COVER("bytes"); }
    if (res == 1) { VG_COVER("no bytes"); }
    if (res < 0) { VG_COVER("more than announced"); }
#else
    if (fresh) {
        VG_ASSERT(patch_reader_none_init(&r, announced) == 0, "begins");
        VG_ASSERT(r.compression.none.patch_offset == 0
                  && r.compression.none.patch_size == announced,
                  "nothing taken yet of what is announced");
        VG_ASSERT(r.decompress == patch_reader_none_decompress
                  && r.destroy == patch_reader_none_destroy, "set up");
    }
    VG_ASSUME(NONE_OK(r.compression.none));
    announced = r.compression.none.patch_size - r.compression.none.patch_offset;
    res = patch_reader_none_destroy(&r);
    VG_ASSERT(res == (announced == 0 ? 0 : -DETOOLS_CORRUPT_PATCH),
              "complete exactly when everything announced was taken");
    if (res == 0) { VG_COVER("complete"); } else { VG_COVER("bytes missing"); }
#endif
}
