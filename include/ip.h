/* Specification of in-place application after the header and the move, as
   a ghost automaton over decompressed patch data, and monitors standing
   for the memory and step callbacks and the patch reader. */
#ifndef IP_H
#define IP_H
#include "vg.h"

enum { PS_DF = 1, PS_DS, PS_DD, PS_ES, PS_ED, PS_AD, PS_DONE };

/* Most of the ghost state fits an int: everything announced in a header is
   below 2^27. */
struct vg_ip_t {
    /* Header. */
    int memory;
    int seg;
    int shift;
    int to_size;
    int moves;              /* segments moved at the beginning */
    /* Where the specification is. */
    int ps;
    int vcount;             /* bytes of the current size received */
    int64_t vval;
    bool vneg;
    int rem;                /* bytes left of the current data block */
    int to;                 /* bytes of the new image determined so far */
    int start;              /* of the current segment */
    int len;                /* of the current segment */
    int64_t from;           /* address to read the next old byte from */
    int step;               /* number of the step being executed */
    int index;              /* segments begun */
    int prod;               /* index times segment size: end of the segment */
    uint32_t fuel;          /* patch data still to come, in bytes */
    /* What must be refused. */
    bool bad_df;
    bool bad_size;
    bool bad_from;          /* old byte outside the memory */
    bool big;               /* size of more than four bytes */
    bool big_from;          /* adjustment beyond what an int holds */
    bool dec_failed;
    int dec_res;
    bool io_failed;         /* memory callback failed */
    int step_res;           /* step callback failed: code expected */
    bool starved;
    bool quiet;
    bool rel;
    int destroyed;
    int destroy_res;
    /* Steps. */
    bool has_set;
    bool has_get;
    int stored;             /* completed step, as stored */
    bool due;               /* a step is complete and not stored yet */
    bool finished;          /* zero stored at the end */
    bool skip;              /* the current step is completed already */
    /* What the callbacks have seen of the current segment. */
    bool erased;
    int to_real;
    int read_left;          /* diff bytes whose old bytes are not read yet */
    int64_t read_at;
    int shifts;             /* counts, in unit ip_init */
    int oks;
    /* Witness byte of the new image. */
    int wit;
    bool wit_set;
    bool wit_diff;
    uint8_t wit_patch;
    int64_t wit_from;
    uint8_t wit_old;
    bool wit_out;
    bool wit_skip;
};

static struct vg_ip_t vg;

#define VG_OKAY (!vg.io_failed && !vg.dec_failed && vg.step_res == 0      \
                 && !vg.bad_df && !vg.bad_size && !vg.bad_from           \
                 && !vg.big && !vg.big_from)
#define VG_ALIVE (VG_OKAY && !vg.starved)
#define VG_MIN(a, b) ((a) < (b) ? (a) : (b))
#define VG_MAX(a, b) ((a) > (b) ? (a) : (b))

/* A new segment begins at vg.to. */
static void vg_ip_segment(void)
{
    vg.index++;
    vg.prod += vg.seg;
    vg.start = vg.to;
    vg.len = VG_MIN(vg.seg, vg.to_size - vg.start);
    vg.from = VG_MAX(vg.start + vg.seg, vg.shift);
    vg.erased = false;
    vg.skip = (vg.has_get && vg.step <= vg.stored);
    vg.to_real = vg.start;
}

static void vg_ip_size_done(int64_t v)
{
    vg.vcount = 0;

    switch (vg.ps) {
    case PS_DF:
        if (v > 0) {
            vg.bad_df = true;
        }
        vg_ip_segment();
        vg.ps = PS_DS;
        break;
    case PS_DS:
    case PS_ES:
        if (v < 0 || v > vg.start + vg.len - vg.to) {
            vg.bad_size = true;
        } else {
            vg.rem = (int)v;
            if (vg.ps == PS_DS) {
                vg.ps = (v > 0 ? PS_DD : PS_ES);
            } else {
                vg.ps = (v > 0 ? PS_ED : PS_AD);
            }
        }
        break;
    case PS_AD:
        if (vg.to == vg.to_size) {
            vg.ps = PS_DONE;
            vg.due = vg.has_set;
        } else if (vg.to == vg.start + vg.len) {
            vg.ps = PS_DF;
            vg.due = (vg.has_set && !vg.skip);
            vg.step++;
        } else {
            vg.from += v;
            if (vg.from > INT_MAX || vg.from < INT_MIN) {
                vg.big_from = true;
            }
            vg.ps = PS_DS;
        }
        break;
    default:
        break;
    }
}

/* Stands for vg_ip_size_done() where only patch_reader_unpack_size() is
   looked at. */
#ifdef VG_RECORD_SIZE
static int64_t vg_rec;
static int vg_recs;
#define vg_ip_size_done(v) do { vg_rec = (v); vg_recs++; vg.vcount = 0; } while (0)
#endif

static void vg_ip_size_byte(uint8_t byte)
{
    if (vg.vcount == 0) {
        vg.vneg = ((byte & 0x40) != 0);
        vg.vval = (byte & 0x3f);
        vg.vcount = 1;
    } else {
        if (vg.vcount >= 4) {
            vg.big = true;
        }
        VG_ASSERT(vg.vcount < 9, "size of too many bytes is refused");
        VG_ASSUME(vg.vcount < 9);
        vg.vval |= ((int64_t)(byte & 0x7f) << (6 + 7 * (vg.vcount - 1)));
        vg.vcount++;
    }

    if ((byte & 0x80) == 0) {
        vg_ip_size_done(vg.vneg ? -vg.vval : vg.vval);
    }
}

static int vg_decompress(struct detools_apply_patch_patch_reader_t *self_p,
                         uint8_t *buf_p,
                         size_t *size_p)
{
    size_t asked;
    size_t size;
    int kind;
    size_t offset;

    asked = *size_p;
    VG_ASSERT(!vg.quiet && vg.destroyed == 0, "no activity after the end");
    VG_ASSERT(VG_ALIVE, "nothing is read from the patch after a failure");
    VG_ASSERT(asked >= 1, "a positive amount of patch data is asked for");
    VG_ASSERT(__CPROVER_w_ok(buf_p, asked), "patch data buffer is big enough");
    VG_ASSUME(offset >= self_p->patch_chunk_p->offset
              && offset <= self_p->patch_chunk_p->size);
    self_p->patch_chunk_p->offset = offset;

    if (kind < 0) {
        VG_ASSUME(kind != -DETOOLS_ALREADY_DONE);
        vg.dec_failed = true;
        vg.dec_res = kind;

        return (kind);
    }

    if (kind > 0) {
        VG_ASSUME(self_p->patch_chunk_p->offset == self_p->patch_chunk_p->size);
        vg.starved = true;

        return (1);
    }

    VG_ASSUME(size >= 1 && size <= asked);
    __CPROVER_havoc_slice(buf_p, asked);
    VG_ASSUME(vg.fuel >= size);
    vg.fuel -= (uint32_t)size;

    switch (vg.ps) {
    case PS_DF:
    case PS_DS:
    case PS_ES:
    case PS_AD:
        VG_ASSERT(asked == 1, "sizes are read byte by byte");
        VG_ASSUME(asked == 1);
        vg_ip_size_byte(buf_p[0]);
        break;
    case PS_DD:
    case PS_ED:
        VG_ASSERT(asked <= (size_t)vg.rem,
                  "no more data than the block has left is asked for");
        VG_ASSUME(asked <= (size_t)vg.rem);
        if (vg.wit >= vg.to && vg.wit < vg.to + (int)size) {
            vg.wit_set = true;
            vg.wit_skip = vg.skip;
            vg.wit_diff = (vg.ps == PS_DD);
            vg.wit_patch = buf_p[vg.wit - vg.to];
            vg.wit_from = vg.from + (vg.wit - vg.to);
        }
        vg.to += (int)size;
        vg.rem -= (int)size;
        if (vg.ps == PS_DD) {
            if (vg.from < 0 || vg.from + (int64_t)size > vg.memory) {
                vg.bad_from = true;
            }
            vg.read_left = (vg.skip ? 0 : (int)size);
            vg.read_at = vg.from;
            vg.from += (int64_t)size;
        }
        if (vg.rem == 0) {
            vg.ps = (vg.ps == PS_DD ? PS_ES : PS_AD);
        }
        break;
    default:
        VG_ASSERT(0, "nothing is read from the patch when it is complete");
        break;
    }

    *size_p = size;

    return (0);
}

/* What patch_reader_unpack_size() does, by unit ip_size. */
int vg_unpack(struct detools_apply_patch_patch_reader_t *self_p, int *size_p)
{
    int kind;
    int value;
    size_t offset;
    struct detools_apply_patch_size_t z;
    uint32_t fuel;

    VG_ASSERT(!vg.quiet && vg.destroyed == 0, "no activity after the end");
    VG_ASSERT(VG_ALIVE, "nothing is read from the patch after a failure");
    VG_ASSERT(vg.ps == PS_DF || vg.ps == PS_DS || vg.ps == PS_ES || vg.ps == PS_AD,
              "a size is read where the patch has one");
    VG_ASSUME(offset >= self_p->patch_chunk_p->offset
              && offset <= self_p->patch_chunk_p->size);
    self_p->patch_chunk_p->offset = offset;
    VG_ASSUME(fuel <= vg.fuel);

    if (kind < 0) {
        VG_ASSUME(kind != -DETOOLS_ALREADY_DONE);
        self_p->size = z;
        vg.fuel = fuel;

        if (value > 0) {
            vg.big = true;

            return (-DETOOLS_CORRUPT_PATCH_OVERFLOW);
        }

        vg.dec_failed = true;
        vg.dec_res = kind;

        return (kind);
    }

    if (kind > 0) {
        VG_ASSUME(self_p->patch_chunk_p->offset == self_p->patch_chunk_p->size);
        VG_ASSUME(vg.vcount <= z.offset);
        vg.fuel = fuel;
        vg.starved = true;
        vg.vval = value;
        vg.vcount = (int)z.offset;
        vg.vneg = z.is_signed;

        if (vg.vcount == 0) {
            self_p->size.state = detools_unpack_usize_state_first_t;
        } else {
            VG_ASSUME(vg.vcount >= 1 && vg.vcount <= 4 && value >= 0
                      && value < (1 << (6 + 7 * (vg.vcount - 1))));
            self_p->size.state = detools_unpack_usize_state_consecutive_t;
            self_p->size.offset = 6 + 7 * (vg.vcount - 1);
            self_p->size.value = value;
            self_p->size.is_signed = vg.vneg;
        }

        return (1);
    }

    VG_ASSUME(fuel < vg.fuel);
    vg.fuel = fuel;
    VG_ASSUME(value <= VG_MAX27 && value >= -VG_MAX27);
    self_p->size = z;
    self_p->size.state = detools_unpack_usize_state_first_t;
    *size_p = value;
    vg_ip_size_done(value);

    return (0);
}

#define VG_IP_CALLBACK                                                   \
    VG_ASSERT(!vg.quiet && vg.destroyed == 0, "no callback after the end"); \
    VG_ASSERT(VG_ALIVE, "no callback after a failure");

static int vg_mem_read(void *arg_p, void *dst_p, uintptr_t src, size_t size)
{
    int res;

    (void)arg_p;
    VG_IP_CALLBACK
    VG_ASSERT(!vg.skip, "memory is not read for a completed step");
    VG_ASSERT(__CPROVER_w_ok(dst_p, size), "buffer to read memory to is big enough");
    VG_ASSERT(src <= (size_t)vg.memory && size <= (size_t)vg.memory - src,
              "memory read is inside the memory");
    VG_ASSERT(size <= (size_t)vg.read_left && (int64_t)src == vg.read_at,
              "old bytes are read from the address the patch prescribes");
    VG_ASSUME(size <= (size_t)vg.read_left && (int64_t)src == vg.read_at);

    if (res != 0) {
        vg.io_failed = true;

        return (res);
    }

    __CPROVER_havoc_slice(dst_p, size);

    if (vg.wit_set && vg.wit_diff && !vg.wit_out
        && vg.wit_from >= vg.read_at
        && vg.wit_from < vg.read_at + (int64_t)size) {
        VG_ASSUME(((uint8_t *)dst_p)[vg.wit_from - vg.read_at] == vg.wit_old);
    }

    vg.read_left -= (int)size;
    vg.read_at += (int64_t)size;

    return (0);
}

static int vg_mem_write(void *arg_p, uintptr_t dst, void *src_p, size_t size)
{
    int res;

    (void)arg_p;
    VG_IP_CALLBACK
    VG_ASSERT(!vg.skip, "memory is not written for a completed step");
    VG_ASSERT(__CPROVER_r_ok(src_p, size), "buffer to write to memory is valid");
    VG_ASSERT(vg.erased, "the segment is erased before it is written");
    VG_ASSERT(vg.read_left == 0, "old bytes are read before they are needed");
    VG_ASSERT(dst == (size_t)vg.to_real,
              "the segment is written from its start without a gap");
    VG_ASSERT(size <= (size_t)(vg.to - vg.to_real),
              "nothing beyond the image data decoded so far is written");
    VG_ASSUME(size <= (size_t)(vg.to - vg.to_real));
    VG_ASSERT(vg.to_real >= vg.start
              && vg.to_real + (int)size <= vg.start + vg.len
              && vg.to_real + (int)size <= vg.memory,
              "the write is inside the erased segment and the memory");

    if (vg.wit >= vg.to_real && vg.wit < vg.to_real + (int)size) {
        VG_ASSERT(vg.wit_set, "witness byte known");
        VG_ASSERT(((uint8_t *)src_p)[vg.wit - vg.to_real]
                  == (uint8_t)(vg.wit_patch + (vg.wit_diff ? vg.wit_old : 0)),
                  "each byte written is the byte the patch encodes");
        vg.wit_out = true;
    }

    if (res != 0) {
        vg.io_failed = true;

        return (res);
    }

    vg.to_real += (int)size;

    return (0);
}

static int vg_mem_erase(void *arg_p, uintptr_t addr, size_t size)
{
    int res;

    (void)arg_p;
    VG_IP_CALLBACK
    VG_ASSERT(!vg.skip, "memory is not erased for a completed step");
    VG_ASSERT(!vg.erased && vg.to == vg.start,
              "a segment is erased once, before anything is written");
    VG_ASSERT(addr == (size_t)vg.start && size == (size_t)vg.len,
              "exactly the segment is erased");
    VG_ASSERT(vg.start + vg.len <= vg.memory,
              "the erase is inside the memory");

    if (res != 0) {
        vg.io_failed = true;

        return (res);
    }

    vg.erased = true;

    return (0);
}

static int vg_step_get(void *arg_p, int *step_p)
{
    int res;

    (void)arg_p;
    VG_IP_CALLBACK
    VG_ASSERT(__CPROVER_w_ok(step_p, sizeof(*step_p)), "place for the step is valid");

    if (res != 0) {
        vg.step_res = -DETOOLS_STEP_GET_FAILED;

        return (res);
    }

    *step_p = vg.stored;

    return (0);
}

static int vg_step_set(void *arg_p, int step)
{
    int res;

    (void)arg_p;
    VG_IP_CALLBACK

    if (vg.ps == PS_DONE) {
        VG_ASSERT(step == 0, "zero is stored when the image is complete");
    } else {
        VG_ASSERT(step == vg.step - 1, "the number of the completed step is stored");
    }

    VG_ASSERT(vg.due, "a step is stored when it is complete, and once");
    VG_ASSERT(vg.to_real == vg.to || vg.skip,
              "a step is stored when all its bytes are written");

    if (res != 0) {
        vg.step_res = -DETOOLS_STEP_SET_FAILED;

        return (res);
    }

    vg.stored = step;
    vg.due = false;
    vg.finished = (vg.ps == PS_DONE);

    return (0);
}

static int vg_destroy(struct detools_apply_patch_patch_reader_t *self_p)
{
    (void)self_p;
    vg.destroyed++;

    return (vg.destroy_res);
}

#endif
