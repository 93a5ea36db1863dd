/* Taking bytes from the chunk: the bytes at the offset, in order, all there
   are up to what is asked for, and one(1) exactly when there are none. The
   stubs of the reader units say the same. */
#include "/repo/c/detools.h"
#include "vg.h"

static size_t g_wit;

#if VG_CASE == 0
static int chunk_get(struct detools_apply_patch_chunk_t *self_p, uint8_t *data_p)
__CPROVER_requires(self_p->offset <= self_p->size)
__CPROVER_assigns(self_p->offset, *data_p)
__CPROVER_ensures(__CPROVER_return_value
                  == (__CPROVER_old(self_p->offset) == self_p->size ? 1 : 0))
__CPROVER_ensures(self_p->offset
                  == __CPROVER_old(self_p->offset) + (__CPROVER_return_value == 0 ? 1 : 0))
__CPROVER_ensures(__CPROVER_return_value != 0
                  || *data_p == self_p->buf_p[self_p->offset - 1])
;
#else
static int chunk_read(struct detools_apply_patch_chunk_t *self_p,
                      uint8_t *buf_p,
                      size_t *size_p)
__CPROVER_requires(self_p->offset <= self_p->size && *size_p >= 1)
__CPROVER_assigns(self_p->offset, *size_p, __CPROVER_object_whole(buf_p))
__CPROVER_ensures(__CPROVER_return_value
                  == (__CPROVER_old(self_p->offset) == self_p->size ? 1 : 0))
__CPROVER_ensures(__CPROVER_return_value != 1
                  || self_p->offset == __CPROVER_old(self_p->offset))
__CPROVER_ensures(__CPROVER_return_value != 0
                  || (*size_p
                      == (__CPROVER_old(*size_p) < self_p->size - __CPROVER_old(self_p->offset)
                          ? __CPROVER_old(*size_p)
                          : self_p->size - __CPROVER_old(self_p->offset))
                      && self_p->offset == __CPROVER_old(self_p->offset) + *size_p))
__CPROVER_ensures(__CPROVER_return_value != 0 || g_wit >= *size_p
                  || buf_p[g_wit] == self_p->buf_p[self_p->offset - *size_p + g_wit])
;
#endif

#include "/repo/c/detools.c"

static struct detools_apply_patch_chunk_t chunk;

void harness(void)
{
    uint8_t *in_p;
    uint8_t *out_p;
    size_t asked;
    int res;

    __CPROVER_havoc_object(&chunk);
    __CPROVER_havoc_object(&g_wit);
    VG_ASSUME(chunk.size <= VG_MAX27 && chunk.offset <= chunk.size);
    in_p = malloc(chunk.size);
    VG_ASSUME(in_p != NULL);
    chunk.buf_p = in_p;
    VG_ASSUME(asked >= 1 && asked <= 128);
    out_p = malloc(asked);
    VG_ASSUME(out_p != NULL);
#if VG_CASE == 0
    res = chunk_get(&chunk, out_p);
#else
    res = chunk_read(&chunk, out_p, &asked);
#endif
    if (res == 0) { VG_COVER("bytes"); } else { VG_COVER("no bytes"); }
}
