/* Header sizes by definition, and the readers' initial states. */
#ifndef READERS_INIT_H
#define READERS_INIT_H

#if DETOOLS_CONFIG_COMPRESSION_LZMA == 1
/* liblzma: assumed contract. */
static bool vg_init_may_fail;
lzma_ret lzma_alone_decoder(lzma_stream *stream_p, uint64_t limit)
{
    VG_ASSERT(__CPROVER_w_ok(stream_p, sizeof(*stream_p)), "stream is valid");
    VG_ASSERT(stream_p->next_in == NULL && stream_p->avail_in == 0
              && stream_p->next_out == NULL && stream_p->avail_out == 0
              && stream_p->internal == NULL && stream_p->allocator == NULL,
              "stream is initialised");
    VG_ASSERT(limit == UINT64_MAX, "no memory limit");

    return (vg_init_may_fail ? LZMA_MEM_ERROR : LZMA_OK);
}
#else
#define vg_init_may_fail false
#endif

struct vg_header_size_t {
    int res;            /* 0 complete, 1 cut, negative refused */
    int64_t value;
    int bytes;          /* bytes of the size received in all */
    size_t used;
};

/* The size denoted by the bytes received before (z) and the bytes in the
   chunk: six bits, then seven bits per byte, least significant first. */
static void vg_header_size(struct vg_header_size_t *h,
                           const struct detools_apply_patch_size_t *z,
                           const struct detools_apply_patch_chunk_t *c)
{
    int i;
    size_t offset;
    uint8_t byte;

    if (z->state == detools_unpack_usize_state_first_t) {
        h->value = 0;
        h->bytes = 0;
    } else {
        h->value = z->value;
        h->bytes = (z->offset + 1) / 7;
    }

    offset = c->offset;
    h->res = 1;

    for (i = 0; i < 6; i++) {
        if (h->res == 1 && offset < c->size) {
            byte = c->buf_p[offset++];

            if (h->bytes == 0) {
                h->value = (byte & 0x3f);
                h->bytes = 1;
                h->res = (byte & 0x80 ? 1 : 0);
            } else if (h->bytes < 4) {
                h->value += ((int64_t)(byte & 0x7f) << (6 + 7 * (h->bytes - 1)));
                h->bytes++;
                h->res = (byte & 0x80 ? 1 : 0);
            } else {
                h->res = -DETOOLS_CORRUPT_PATCH_OVERFLOW;
            }
        }
    }

    h->used = offset - c->offset;
}

static bool vg_header_state(const struct detools_apply_patch_size_t *z,
                            const struct vg_header_size_t *h)
{
    return (h->bytes == 0
            ? z->state == detools_unpack_usize_state_first_t
            : (z->state == detools_unpack_usize_state_consecutive_t
               && z->offset == 7 * h->bytes - 1
               && z->value == h->value));
}

#define VG_BUILT_IN(c)                                          \
    (((c) == 0 && DETOOLS_CONFIG_COMPRESSION_NONE == 1)         \
     || ((c) == 1 && DETOOLS_CONFIG_COMPRESSION_LZMA == 1)      \
     || ((c) == 2 && DETOOLS_CONFIG_COMPRESSION_CRLE == 1)      \
     || ((c) == 4 && DETOOLS_CONFIG_COMPRESSION_HEATSHRINK == 1))

#endif
