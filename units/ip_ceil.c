/* DIV_CEIL(): the quotient rounded up, by definition; that it is what
   ip_shift needs is a lemma. */
#include "/repo/c/detools.h"
#include "vg.h"
#include "/repo/c/detools.c"

void harness(void)
{
    size_t n;
    size_t d;

    n &= VG_MAX27;
    d &= VG_MAX27;
    VG_ASSUME(d >= 1);
    VG_COVER("quotient");
    VG_ASSERT(DIV_CEIL(n, d) == (n + d - 1) / d, "quotient rounded up");
}
