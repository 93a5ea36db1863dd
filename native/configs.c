/* Headers against one build configuration: refused before any callback,
   or accepted. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "detools.h"
static int calls;
static int rd(void *a, uint8_t *b, size_t n) { (void)a; (void)b; (void)n; calls++; return -1; }
static int sk(void *a, int o) { (void)a; (void)o; calls++; return -1; }
static int wr(void *a, const uint8_t *b, size_t n) { (void)a; (void)b; (void)n; calls++; return -1; }
static int mr(void *a, void *d, uintptr_t s, size_t n) { (void)a; (void)d; (void)s; (void)n; calls++; return -1; }
static int mw(void *a, uintptr_t d, void *s, size_t n) { (void)a; (void)d; (void)s; (void)n; calls++; return -1; }
static int me(void *a, uintptr_t d, size_t n) { (void)a; (void)d; (void)n; calls++; return -1; }
static int ss(void *a, int s) { (void)a; (void)s; calls++; return -1; }
static int sg(void *a, int *s) { (void)a; *s = 0; calls++; return -1; }
static int built(int c)
{
    return (c == 0 && DETOOLS_CONFIG_COMPRESSION_NONE == 1) || (c == 1 && DETOOLS_CONFIG_COMPRESSION_LZMA == 1)
        || (c == 2 && DETOOLS_CONFIG_COMPRESSION_CRLE == 1) || (c == 4 && DETOOLS_CONFIG_COMPRESSION_HEATSHRINK == 1);
}
int main(void)
{
    int c, t, top, ip, n = 0, cut;
    for (ip = 0; ip < 2; ip++) for (top = 0; top < 2; top++) for (t = 0; t < 8; t++) for (c = 0; c < 16; c++) for (cut = 0; cut < 2; cut++) {
        uint8_t p[8] = {(uint8_t)(top << 7 | t << 4 | c), 20, 5, 0, 10, 10, 0, 0};
        size_t size = ip ? 6 : 2;
        int res, fin, want;
        static struct detools_apply_patch_t a;
        static struct detools_apply_patch_in_place_t b;
        memset(&a, 0x5a, sizeof a);
        memset(&b, 0x5a, sizeof b);
        calls = 0;
        want = t != ip ? -DETOOLS_BAD_PATCH_TYPE : !built(c) ? -DETOOLS_BAD_COMPRESSION : 0;
        if (ip) {
            detools_apply_patch_in_place_init(&b, mr, mw, me, ss, sg, 100, NULL);
            res = detools_apply_patch_in_place_process(&b, p, cut ? 1 : size);
            if (cut && res == 0) res = detools_apply_patch_in_place_process(&b, p + 1, size - 1);
            fin = detools_apply_patch_in_place_finalize(&b);
        } else {
            detools_apply_patch_init(&a, rd, sk, 100, wr, NULL);
            res = detools_apply_patch_process(&a, p, cut ? 1 : size);
            if (cut && res == 0) res = detools_apply_patch_process(&a, p + 1, size - 1);
            fin = detools_apply_patch_finalize(&a);
        }
        n++;
        if (res != want || fin >= 0 || calls != 0) {
            printf("VIOL C18 header %02x by %s interface: %d instead of %d, finalize %d, %d callbacks (none %d lzma %d crle %d heatshrink %d)\n",
                   p[0], ip ? "in-place" : "sequential", res, want, fin, calls, DETOOLS_CONFIG_COMPRESSION_NONE,
                   DETOOLS_CONFIG_COMPRESSION_LZMA, DETOOLS_CONFIG_COMPRESSION_CRLE, DETOOLS_CONFIG_COMPRESSION_HEATSHRINK);
            return 1;
        }
    }
    printf("DONE configs %d cases\n", n);
    return 0;
}
