/* Applier of the records the patch creator emits, as a ghost, and bounds
   on its inputs. */
#ifndef BS_H
#define BS_H
#include "vg.h"

#define VG_BS_MAX ((1 << 30) - 1)

static struct {
    int32_t from_size;
    int32_t to_size;
    uint8_t *from_p;
    uint8_t *to_p;
    uint8_t *debuf_p;
    int32_t *sa_p;
    int32_t wit;            /* arbitrary byte of the new image */
    int32_t any;            /* arbitrary index into a block */
} k;

static struct {
    int32_t to;             /* bytes of the new image rebuilt */
    int32_t from;           /* position in the old image */
    int records;
    int parts;              /* of the current record: 0, 1, 2 */
    bool wit_out;
    bool failed;
} g;

static void vg_bs_inputs(void)
{
    __CPROVER_havoc_object(&k);
    __CPROVER_havoc_object(&g);
    VG_ASSUME(k.from_size >= 0 && k.from_size <= VG_BS_MAX);
    VG_ASSUME(k.to_size >= 0 && k.to_size <= VG_BS_MAX);
    k.from_p = malloc(k.from_size);
    k.to_p = malloc(k.to_size);
    VG_ASSUME(k.from_p != NULL && k.to_p != NULL);
    VG_ASSUME(k.wit >= 0);
}

#endif
