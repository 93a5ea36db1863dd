/* Dump of one object followed by restore into a freshly initialised one:
   every field the next step depends on (unit seq_step: the relation to the
   specification automaton; units none, crle, hs_reader: the state of the
   reader) is carried over or bound to the new object. One compression is
   built in per case; every header compression and state is explored. */
#include "vg.h"
#include "/repo/c/detools.h"

static struct {
    int writes, reads, seeks;
    size_t put, got;
    int write_res, read_res, seek_res;
    bool failed;
    int seek_to;
    uint8_t store[sizeof(struct detools_apply_patch_t)];
} d;

static int vg_from_read(void *arg_p, uint8_t *buf_p, size_t size)
{
    (void)arg_p; (void)buf_p; (void)size;
    VG_ASSERT(0, "the old image is not read");
    return (0);
}

static int vg_to_write(void *arg_p, const uint8_t *buf_p, size_t size)
{
    (void)arg_p; (void)buf_p; (void)size;
    VG_ASSERT(0, "nothing is written to the new image");
    return (0);
}

static int vg_from_seek(void *arg_p, int offset)
{
    VG_ASSERT(!d.failed, "no callback after a failed one");
    VG_ASSERT(arg_p == &d, "argument of the restored object");
    d.seeks++;
    d.seek_to = offset;
    if (d.seek_res != 0) {
        d.failed = true;
    }
    return (d.seek_res);
}

static int vg_state_write(void *arg_p, const void *buf_p, size_t size)
{
    VG_ASSERT(!d.failed, "no callback after a failed one");
    VG_ASSERT(arg_p == &d, "argument of the dumped object");
    VG_ASSERT(d.put + size <= sizeof(d.store), "state has a bounded size");
    d.writes++;
    memcpy(&d.store[d.put], buf_p, size);
    d.put += size;
    if (d.write_res != 0) {
        d.failed = true;
    }
    return (d.write_res);
}

static int vg_state_read(void *arg_p, void *buf_p, size_t size)
{
    VG_ASSERT(!d.failed, "no callback after a failed one");
    VG_ASSERT(arg_p == &d, "argument of the restored object");
    VG_ASSERT(d.got + size <= d.put, "only what was written is read");
    d.reads++;
    memcpy(buf_p, &d.store[d.got], size);
    d.got += size;
    if (d.read_res != 0) {
        d.failed = true;
    }
    return (d.read_res);
}

#include "/repo/c/detools.c"

static struct detools_apply_patch_t o;
static struct detools_apply_patch_t f;

#define R o.patch_reader
#define T f.patch_reader

void harness(void)
{
    int res;
    size_t i;
    size_t size;
    bool carried;
    struct detools_apply_patch_t before;

    __CPROVER_havoc_object(&o);
    __CPROVER_havoc_object(&f);
    __CPROVER_havoc_object(&d);
    d.writes = d.reads = d.seeks = 0;
    d.put = d.got = 0;
    d.failed = false;
    o.arg_p = &d;
    /* The fields a process() call leaves behind. */
    VG_ASSUME(o.compression >= 0 && o.compression <= 15);
#if VG_CASE == 4
    if (o.patch_reader.compression.heatshrink.decoder_p != NULL) {
        o.patch_reader.compression.heatshrink.decoder_p
            = &o.patch_reader.compression.heatshrink.decoder;
    }
#endif
    before = o;

    res = detools_apply_patch_dump(&o, vg_state_write);

    VG_ASSERT(o.state == before.state && o.patch_offset == before.patch_offset
              && o.to_offset == before.to_offset && o.chunk_size == before.chunk_size
              && o.from_offset == before.from_offset,
              "a dump does not change the dumped object");
    VG_ASSERT(d.seeks == 0 && d.reads == 0, "a dump only writes");
    carried = (o.state == detools_apply_patch_state_init_t
               || (VG_CASE != 1 && o.compression == VG_CASE));
    if (d.writes > 0 && d.write_res != 0) {
        VG_COVER("dump fails");
        VG_ASSERT(res == -DETOOLS_IO_FAILED, "a failing state write is reported");
        return;
    }
    if (!carried) {
        VG_COVER("dump refused");
        VG_ASSERT(res == -DETOOLS_NOT_IMPLEMENTED,
                  "state that cannot be carried over is refused");
    } else {
        VG_ASSERT(res == 0, "dump succeeds");
        VG_ASSERT(d.writes > 0, "dump writes the state");
    }

    /* Restore, also of a state whose dump was refused. */
    detools_apply_patch_init(&f, vg_from_read, vg_from_seek, size, vg_to_write, &d);
    res = detools_apply_patch_restore(&f, vg_state_read);

    VG_ASSERT(f.from_read == vg_from_read && f.from_seek == vg_from_seek
              && f.to_write == vg_to_write && f.arg_p == &d,
              "callbacks are those of the new object");
    VG_ASSERT(d.seeks <= 1, "the old image is positioned at most once");
    if (d.failed) {
        VG_COVER("restore fails");
        VG_ASSERT(res == -DETOOLS_IO_FAILED, "a failing callback is reported");
        return;
    }
    if (!carried) {
        VG_COVER("restore refused");
        VG_ASSERT(res == -DETOOLS_NOT_IMPLEMENTED,
                  "state that cannot be carried over is not restored");
        return;
    }
    VG_ASSERT(res == 0, "restore succeeds");
    VG_ASSERT(f.state == o.state, "stage carried over");
    VG_ASSERT(f.patch_size == o.patch_size, "patch size carried over");
    if (o.state == detools_apply_patch_state_init_t) {
        VG_COVER("header");
        /* The header is received again, from the beginning. */
        VG_ASSERT(f.init_state == detools_apply_patch_init_state_fixed_header_t
                  && detools_apply_patch_get_patch_offset(&f) == 0
                  && detools_apply_patch_get_to_offset(&f) == 0
                  && f.from_offset == 0 && T.destroy == NULL,
                  "header starts again");
        VG_ASSERT(d.seeks == 0 || d.seek_to == 0, "old image at its beginning");
        return;
    }
#if VG_CASE != 1
    VG_COVER("patch data");
#endif
    VG_ASSERT(f.compression == o.compression, "compression carried over");
    VG_ASSERT(detools_apply_patch_get_patch_offset(&f) == o.patch_offset,
              "reported patch offset");
    VG_ASSERT(detools_apply_patch_get_to_offset(&f) == o.to_offset,
              "reported output offset");
    VG_ASSERT(f.to_offset == o.to_offset && f.to_size == o.to_size
              && f.chunk_size == o.chunk_size, "position in the new image");
    VG_ASSERT(f.from_offset == o.from_offset
              && (d.seeks == 1 ? d.seek_to == o.from_offset : o.from_offset == 0),
              "old image positioned where the dumped application was");
    VG_ASSERT(T.size.state == R.size.state && T.size.value == R.size.value
              && T.size.offset == R.size.offset && T.size.is_signed == R.size.is_signed,
              "partially received size");
    VG_ASSERT(T.patch_chunk_p == &f.chunk, "the new object reads its own chunks");
#if VG_CASE == 0
    VG_ASSERT(T.decompress == patch_reader_none_decompress
              && T.destroy == patch_reader_none_destroy, "reader bound");
    VG_ASSERT(T.compression.none.patch_size == R.compression.none.patch_size
              && T.compression.none.patch_offset == R.compression.none.patch_offset,
              "uncompressed data left");
#elif VG_CASE == 2
#define TC T.compression.crle
#define RC R.compression.crle
    VG_ASSERT(T.decompress == patch_reader_crle_decompress
              && T.destroy == patch_reader_crle_destroy, "reader bound");
    VG_ASSERT(TC.state == RC.state, "segment state");
    VG_ASSERT(TC.kind.repeated.value == RC.kind.repeated.value
              && TC.kind.repeated.number_of_bytes_left
                 == RC.kind.repeated.number_of_bytes_left
              && TC.kind.repeated.size.state == RC.kind.repeated.size.state
              && TC.kind.repeated.size.value == RC.kind.repeated.size.value
              && TC.kind.repeated.size.offset == RC.kind.repeated.size.offset,
              "repeated segment");
    VG_ASSERT(TC.kind.scattered.number_of_bytes_left
                 == RC.kind.scattered.number_of_bytes_left
              && TC.kind.scattered.size.state == RC.kind.scattered.size.state
              && TC.kind.scattered.size.value == RC.kind.scattered.size.value
              && TC.kind.scattered.size.offset == RC.kind.scattered.size.offset,
              "scattered segment");
#elif VG_CASE == 4
#define TH T.compression.heatshrink
#define RH R.compression.heatshrink
    VG_ASSERT(T.decompress == patch_reader_heatshrink_decompress
              && T.destroy == patch_reader_heatshrink_destroy, "reader bound");
    VG_ASSERT(TH.window_sz2 == RH.window_sz2 && TH.lookahead_sz2 == RH.lookahead_sz2,
              "parameters");
    VG_ASSERT(RH.decoder_p == NULL ? TH.decoder_p == NULL
              : TH.decoder_p == &T.compression.heatshrink.decoder,
              "the new object has a decoder of its own");
    VG_ASSERT(TH.decoder.input_size == RH.decoder.input_size
              && TH.decoder.input_index == RH.decoder.input_index
              && TH.decoder.output_count == RH.decoder.output_count
              && TH.decoder.output_index == RH.decoder.output_index
              && TH.decoder.head_index == RH.decoder.head_index
              && TH.decoder.state == RH.decoder.state
              && TH.decoder.current_byte == RH.decoder.current_byte
              && TH.decoder.bit_index == RH.decoder.bit_index, "decoder registers");
    VG_ASSUME(i < sizeof(RH.decoder.buffers));
    VG_ASSERT(TH.decoder.buffers[i] == RH.decoder.buffers[i], "decoder window");
#endif
}
