/* Specification of the sequential patch format over the decompressed
   patch data, as a ghost automaton, and monitors standing for the
   callbacks and the patch reader. */
#ifndef SEQ_H
#define SEQ_H
#include "vg.h"

#define VG_FROM_MAX ((int64_t)1 << 60)

enum { PS_DF = 1, PS_DS, PS_DD, PS_ES, PS_ED, PS_AD, PS_DONE };

struct vg_seq_t {
    /* Where the specification is in the decompressed patch data. */
    int ps;
    int vcount;             /* bytes of the current size received */
    int64_t vval;
    bool vneg;
    int64_t rem;            /* bytes left of the current data block */
    int64_t to;             /* bytes of the new image determined so far */
    int64_t to_size;
    int64_t from;           /* position in the old image */
    /* What must or may be refused. */
    bool bad_df;            /* data format patch: not implemented */
    bool bad_size;          /* size negative or beyond the image */
    bool big;               /* size of more than four bytes */
    bool dec_failed;        /* patch reader returned an error */
    int dec_res;
    bool io_failed;         /* a callback failed */
    bool starved;           /* patch reader asked for more input */
    bool rel;               /* opaque relation to the code's state */
    bool quiet;             /* no callback may be invoked any more */
    int destroyed;          /* times the patch reader was destroyed */
    int destroy_res;
    uint32_t fuel;          /* patch data still to come, in bytes */
    /* What the callbacks have seen. */
    int64_t to_real;
    int64_t from_real;
    /* Witness byte of the new image: index, whether it is a diff byte,
       its patch byte and the old image byte it is added to. */
    int64_t wit;
    bool wit_set;
    bool wit_diff;
    uint8_t wit_patch;
    int64_t wit_from;
    uint8_t wit_old;
    bool wit_out;           /* seen by to_write */
};

static struct vg_seq_t vg;

/* A failed callback or reader makes any further activity wrong. */
#define VG_OKAY (!vg.io_failed && !vg.dec_failed && !vg.bad_df && !vg.bad_size)
#define VG_ALIVE (VG_OKAY && !vg.starved)

static void vg_seq_size_done(int64_t v)
{
    vg.vcount = 0;

    switch (vg.ps) {
    case PS_DF:
        if (v > 0) {
            vg.bad_df = true;
        }
        vg.ps = PS_DS;
        break;
    case PS_DS:
    case PS_ES:
        if (v < 0 || vg.to + v > vg.to_size) {
            vg.bad_size = true;
        } else {
            vg.rem = v;
            if (vg.ps == PS_DS) {
                vg.ps = (v > 0 ? PS_DD : PS_ES);
            } else {
                vg.ps = (v > 0 ? PS_ED : PS_AD);
            }
        }
        break;
    case PS_AD:
        vg.from += v;
        /* Would take 2^33 adjustments. */
        VG_ASSUME(vg.from > -VG_FROM_MAX && vg.from < VG_FROM_MAX);
        vg.ps = (vg.to == vg.to_size ? PS_DONE : PS_DS);
        break;
    default:
        break;
    }
}

/* One byte of a size. */
static void vg_seq_size_byte(uint8_t byte)
{
    if (vg.vcount == 0) {
        vg.vneg = ((byte & 0x40) != 0);
        vg.vval = (byte & 0x3f);
        vg.vcount = 1;
    } else {
        if (vg.vcount >= 4) {
            vg.big = true;
        }
        VG_ASSERT(vg.vcount < 9, "size of too many bytes is refused");
        VG_ASSUME(vg.vcount < 9);
        vg.vval |= ((int64_t)(byte & 0x7f) << (6 + 7 * (vg.vcount - 1)));
        vg.vcount++;
    }

    if ((byte & 0x80) == 0) {
        vg_seq_size_done(vg.vneg ? -vg.vval : vg.vval);
    }
}

/* The patch reader: gives any non-empty amount of data up to what was
   asked for, asks for input, or fails. The units about the readers prove
   that each of them does this. */
static int vg_decompress(struct detools_apply_patch_patch_reader_t *self_p,
                         uint8_t *buf_p,
                         size_t *size_p)
{
    size_t asked;
    size_t size;
    int kind;
    size_t offset;

    (void)self_p;
    asked = *size_p;
    VG_ASSERT(!vg.quiet && vg.destroyed == 0, "no activity after the end");
    VG_ASSERT(VG_ALIVE, "nothing is read from the patch after a failure");
    VG_ASSERT(asked >= 1, "a positive amount of patch data is asked for");
    VG_ASSERT(__CPROVER_w_ok(buf_p, asked), "patch data buffer is big enough");
    VG_ASSUME(offset >= self_p->patch_chunk_p->offset
              && offset <= self_p->patch_chunk_p->size);
    self_p->patch_chunk_p->offset = offset;

    if (kind < 0) {
        VG_ASSUME(kind != -DETOOLS_ALREADY_DONE);
        vg.dec_failed = true;
        vg.dec_res = kind;

        return (kind);
    }

    if (kind > 0) {
        VG_ASSUME(self_p->patch_chunk_p->offset == self_p->patch_chunk_p->size);
        vg.starved = true;

        return (1);
    }

    VG_ASSUME(size >= 1 && size <= asked);
    __CPROVER_havoc_slice(buf_p, asked);
    VG_ASSUME(vg.fuel >= size);
    vg.fuel -= (uint32_t)size;

    switch (vg.ps) {
    case PS_DF:
    case PS_DS:
    case PS_ES:
    case PS_AD:
        VG_ASSERT(asked == 1, "sizes are read byte by byte");
        VG_ASSUME(asked == 1);
        vg_seq_size_byte(buf_p[0]);
        break;
    case PS_DD:
    case PS_ED:
        VG_ASSERT((int64_t)asked <= vg.rem,
                  "no more data than the block has left is asked for");
        VG_ASSUME((int64_t)asked <= vg.rem);
        if (vg.wit >= vg.to && vg.wit < vg.to + (int64_t)size) {
            vg.wit_set = true;
            vg.wit_diff = (vg.ps == PS_DD);
            vg.wit_patch = buf_p[vg.wit - vg.to];
            vg.wit_from = vg.from + (vg.wit - vg.to);
        }
        vg.to += (int64_t)size;
        vg.rem -= (int64_t)size;
        if (vg.ps == PS_DD) {
            vg.from += (int64_t)size;
            VG_ASSUME(vg.from > -VG_FROM_MAX && vg.from < VG_FROM_MAX);
        }
        if (vg.rem == 0) {
            vg.ps = (vg.ps == PS_DD ? PS_ES : PS_AD);
        }
        break;
    default:
        VG_ASSERT(0, "nothing is read from the patch when it is complete");
        break;
    }

    *size_p = size;

    return (0);
}

static int vg_destroy(struct detools_apply_patch_patch_reader_t *self_p)
{
    (void)self_p;
    vg.destroyed++;

    return (vg.destroy_res);
}

static int vg_from_read(void *arg_p, uint8_t *buf_p, size_t size)
{
    int res;

    (void)arg_p;
    VG_ASSERT(!vg.quiet && vg.destroyed == 0, "no callback after the end");
    VG_ASSERT(VG_ALIVE, "the old image is not read after a failure");
    VG_ASSERT(__CPROVER_w_ok(buf_p, size), "from buffer is big enough");
    VG_ASSERT(vg.from_real + (int64_t)size <= vg.from,
              "no old image byte beyond the diff data is read");

    if (res != 0) {
        vg.io_failed = true;

        return (res);
    }

    __CPROVER_havoc_slice(buf_p, size);

    if (vg.wit_set && vg.wit_diff
        && vg.wit_from >= vg.from_real
        && vg.wit_from < vg.from_real + (int64_t)size) {
        VG_ASSUME(buf_p[vg.wit_from - vg.from_real] == vg.wit_old);
    }

    vg.from_real += (int64_t)size;

    return (0);
}

static int vg_from_seek(void *arg_p, int offset)
{
    int res;

    (void)arg_p;
    VG_ASSERT(!vg.quiet && vg.destroyed == 0, "no callback after the end");
    VG_ASSERT(VG_ALIVE, "the old image is not moved in after a failure");

    if (res != 0) {
        vg.io_failed = true;

        return (res);
    }

    vg.from_real += offset;

    return (0);
}

static int vg_to_write(void *arg_p, const uint8_t *buf_p, size_t size)
{
    int res;

    (void)arg_p;
    VG_ASSERT(!vg.quiet && vg.destroyed == 0, "no callback after the end");
    VG_ASSERT(VG_ALIVE, "nothing is written after a failure");
    VG_ASSERT(__CPROVER_r_ok(buf_p, size), "to buffer is valid");
    VG_ASSERT(vg.to_real + (int64_t)size <= vg.to,
              "nothing beyond the image data decoded so far is written");

    if (vg.wit >= vg.to_real && vg.wit < vg.to_real + (int64_t)size) {
        VG_ASSERT(vg.wit_set, "witness byte known");
        VG_ASSERT(buf_p[vg.wit - vg.to_real]
                  == (uint8_t)(vg.wit_patch + (vg.wit_diff ? vg.wit_old : 0)),
                  "each byte written is the byte the patch encodes");
        vg.wit_out = true;
    }

    if (res != 0) {
        vg.io_failed = true;

        return (res);
    }

    vg.to_real += (int64_t)size;

    return (0);
}

#endif
