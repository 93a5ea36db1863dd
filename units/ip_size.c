/* patch_reader_unpack_size(): one size of the patch, byte by byte, over any
   number of calls; what vg_unpack() in ip.h stands for. */
#define VG_RECORD_SIZE
#include "/repo/c/detools.h"
#include "ip.h"
#define VG_ENFORCE_STEP
#include "ip_contract.h"
#include "/repo/c/detools.c"

static struct detools_apply_patch_patch_reader_t r;
static struct detools_apply_patch_chunk_t c;

void harness(void)
{
    int res;
    int size;
    size_t offset;
    uint32_t fuel;
    int ps;
    int vcount;

    __CPROVER_havoc_object(&r);
    __CPROVER_havoc_object(&c);
    __CPROVER_havoc_object(&vg);
    vg.destroyed = 0;
    vg_recs = 0;
    r.decompress = vg_decompress;
    r.patch_chunk_p = &c;
    VG_ASSUME(VG_ALIVE && !vg.quiet && c.offset <= c.size);
    VG_ASSUME(vg.ps == PS_DF || vg.ps == PS_DS || vg.ps == PS_ES || vg.ps == PS_AD);
    VG_ASSUME(VG_SIZE_REL(r.size));
    offset = c.offset;
    fuel = vg.fuel;
    ps = vg.ps;
    vcount = vg.vcount;

    res = patch_reader_unpack_size(&r, &size);

    VG_ASSERT(res <= 1, "result");
    VG_ASSERT(c.offset >= offset && c.offset <= c.size && vg.fuel <= fuel,
              "patch data is only consumed");
    VG_ASSERT(vg.ps == ps, "a size is one phase");

    if (res == 0) {
        VG_COVER("size complete");
        VG_ASSERT(!vg.big && !vg.dec_failed && !vg.starved, "all bytes received");
        VG_ASSERT(vg_recs == 1 && vg_rec == size, "the value the patch encodes");
        VG_ASSERT(size <= VG_MAX27 && size >= -VG_MAX27, "value is below 2^27");
        VG_ASSERT(r.size.state == VG_UF && vg.vcount == 0, "ready for the next size");
        VG_ASSERT(vg.fuel < fuel, "a size takes patch data");
    } else if (res == 1) {
        VG_COVER("size incomplete");
        VG_ASSERT(vg.starved && !vg.big && !vg.dec_failed && vg_recs == 0, "more is awaited");
        VG_ASSERT(c.offset == c.size && VG_SIZE_REL(r.size) && vg.vcount >= vcount,
                  "the bytes received are kept");
    } else if (vg.big) {
        VG_COVER("size too big");
        VG_ASSERT(res == -DETOOLS_CORRUPT_PATCH_OVERFLOW && !vg.dec_failed && !vg.starved,
                  "a size of more than four bytes is refused");
    } else {
        VG_COVER("reader failed");
        VG_ASSERT(vg.dec_failed && res == vg.dec_res && !vg.starved && vg_recs == 0,
                  "failure of the reader is handed on");
    }
}
