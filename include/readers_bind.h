/* Which functions read which compression, and how they start: names of
   the code, so this is included after it. */
#ifndef READERS_BIND_H
#define READERS_BIND_H

static bool vg_is_destroy(int (*f)(struct detools_apply_patch_patch_reader_t *))
{
#if DETOOLS_CONFIG_COMPRESSION_NONE == 1
    if (f == patch_reader_none_destroy) return (true);
#endif
#if DETOOLS_CONFIG_COMPRESSION_LZMA == 1
    if (f == patch_reader_lzma_destroy) return (true);
#endif
#if DETOOLS_CONFIG_COMPRESSION_CRLE == 1
    if (f == patch_reader_crle_destroy) return (true);
#endif
#if DETOOLS_CONFIG_COMPRESSION_HEATSHRINK == 1
    if (f == patch_reader_heatshrink_destroy) return (true);
#endif
    return (false);
}

static bool vg_reader_is_fresh(const struct detools_apply_patch_patch_reader_t *r,
                               int compression,
                               size_t left)
{
    if (r->size.state != detools_unpack_usize_state_first_t) {
        return (false);
    }

    switch (compression) {
#if DETOOLS_CONFIG_COMPRESSION_NONE == 1
    case 0:
        return (r->decompress == patch_reader_none_decompress
                && r->destroy == patch_reader_none_destroy
                && r->compression.none.patch_size
                   - r->compression.none.patch_offset == left);
#endif
#if DETOOLS_CONFIG_COMPRESSION_LZMA == 1
    case 1:
        return (r->decompress == patch_reader_lzma_decompress
                && r->destroy == patch_reader_lzma_destroy
                && r->compression.lzma.input_p == NULL
                && r->compression.lzma.output_p == NULL
                && r->compression.lzma.output_size == 0
                && r->compression.lzma.stream.avail_in == 0
                && r->compression.lzma.stream.next_in == NULL);
#endif
#if DETOOLS_CONFIG_COMPRESSION_CRLE == 1
    case 2:
        return (r->decompress == patch_reader_crle_decompress
                && r->destroy == patch_reader_crle_destroy
                && r->compression.crle.state == detools_crle_state_idle_t);
#endif
#if DETOOLS_CONFIG_COMPRESSION_HEATSHRINK == 1
    case 4:
        return (r->decompress == patch_reader_heatshrink_decompress
                && r->destroy == patch_reader_heatshrink_destroy
                && r->compression.heatshrink.window_sz2 == -1
                && r->compression.heatshrink.decoder_p == NULL);
#endif
    default:
        return (false);
    }
}

#endif
