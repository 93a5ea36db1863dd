/* pack_size() of the patch creator: the bytes denote the integer by the
   definition the C readers (units ip_size, seq_step) and the Python reader
   (unit py_size) are held to, for every 64-bit integer. */
#include "vg.h"
#include "/repo/detools/bsdiff.c"

void harness(void)
{
    int res;
    int i;
    int64_t value;
    uint64_t magnitude;
    uint64_t spec;
    size_t size;
    uint8_t *buf_p;

    VG_ASSUME(size <= 16);
    buf_p = malloc(size);
    VG_ASSUME(buf_p != NULL);

    res = pack_size(buf_p, value, size);

    if (size < 10) {
        VG_COVER("buffer too small");
        VG_ASSERT(res < 0, "a buffer that may be too small is refused");
        return;
    }

    VG_COVER("packed");
    VG_ASSERT(res >= 1 && res <= 10, "one to ten bytes");
    magnitude = (value < 0 ? 0 - (uint64_t)value : (uint64_t)value);
    spec = 0;

    for (i = 0; i < 10; i++) {
        if (i < res) {
            VG_ASSERT(((buf_p[i] & 0x80) != 0) == (i < res - 1),
                      "the last byte, and only that, ends the size");
            if (i == 0) {
                spec = (buf_p[0] & 0x3f);
            } else {
                VG_ASSERT(i < 9 || (buf_p[i] & 0x7f) < 4, "value below 2^64");
                spec |= ((uint64_t)(buf_p[i] & 0x7f) << (6 + 7 * (i - 1)));
            }
        }
    }

    VG_ASSERT(spec == magnitude, "magnitude");
    VG_ASSERT(magnitude == 0 || ((buf_p[0] & 0x40) != 0) == (value < 0), "sign");
}
