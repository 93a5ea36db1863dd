/* Delivering the bytes of a repeated CRLE segment. */
#include "/repo/c/detools.h"
#include "vg.h"
#include "crle.h"

#define DETOOLS_LOOP_crle_repeat(buf_p, i)                               \
    __CPROVER_assigns(i, __CPROVER_object_whole(buf_p))                  \
    __CPROVER_loop_invariant(i <= size                                   \
        && (g_wit >= i || buf_p[g_wit] == crle_p->kind.repeated.value))  \
    __CPROVER_decreases(size - i)

static int patch_reader_crle_decompress_repeated_data_read(
    struct detools_apply_patch_patch_reader_crle_t *crle_p,
    uint8_t *buf_p,
    size_t *size_p)
CRLE_RUN_CONTRACT;

#include "/repo/c/detools.c"

static struct detools_apply_patch_patch_reader_crle_t c;

void harness(void)
{
    uint8_t *out_p;
    size_t asked;
    size_t size;
    int res;

    __CPROVER_havoc_object(&c);
    __CPROVER_havoc_object(&g_wit);
    VG_ASSUME(asked >= 1 && asked <= 128);
    c.state = detools_crle_state_repeated_data_read_t;
    VG_ASSUME(c.kind.repeated.number_of_bytes_left > 0);
    out_p = malloc(asked);
    VG_ASSUME(out_p != NULL);
    size = asked;
    res = patch_reader_crle_decompress_repeated_data_read(&c, out_p, &size);
    if (size < asked) { VG_COVER("run ends"); } else { VG_COVER("run may go on"); }
}
