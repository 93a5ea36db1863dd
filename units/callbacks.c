/* The callback interfaces, against what process() and finalize() promise
   (units seq_process, seq_finalize, ip_process, ip_finalize): the patch is
   read from its beginning to its end, in order, and handed on byte for
   byte (an arbitrary witness byte); nothing is read or processed after a
   failure; finalize is called exactly once, whatever happened. */
#include "vg.h"
#include "/repo/c/detools.h"

#ifdef VG_IN_PLACE
typedef struct detools_apply_patch_in_place_t vg_object_t;
#else
typedef struct detools_apply_patch_t vg_object_t;
#endif

static struct {
    size_t size;
    size_t witness;
    uint8_t byte;
    int callbacks;
} k;

static struct {
    size_t pos;
    size_t fed;
    int finals;
    bool failed;
    bool read_failed;
    int res;
    int final_res;
} g;

#define DETOOLS_LOOP_callbacks_process(res, patch_offset)                \
    __CPROVER_assigns(res, patch_offset, chunk_size,                     \
                      __CPROVER_object_whole(&chunk[0]), g)              \
    __CPROVER_loop_invariant(patch_offset <= patch_size                  \
        && patch_size == k.size && g.finals == 0                         \
        && (res == 0                                                     \
            ? (!g.failed && !g.read_failed && g.pos == patch_offset      \
               && g.fed == patch_offset)                                 \
            : (g.failed && res < 0                                       \
               && res == (g.read_failed ? -DETOOLS_IO_FAILED : g.res)))) \
    __CPROVER_decreases((res == 0 ? 1 : 0), patch_size - patch_offset)
#define DETOOLS_LOOP_in_place_callbacks_process(res, patch_offset)       \
    DETOOLS_LOOP_callbacks_process(res, patch_offset)

#include "/repo/c/detools.c"

static int arg;

static int vg_patch_read(void *arg_p, uint8_t *buf_p, size_t size)
{
    int res;

    VG_ASSERT(arg_p == &arg, "argument as given");
    VG_ASSERT(!g.failed && g.finals == 0, "the patch is not read after a failure or the end");
    VG_ASSERT(size > 0 && size <= k.size - g.pos, "never more than the patch is read");
    VG_ASSERT(__CPROVER_w_ok(buf_p, size), "room for what is read");
    if (k.witness >= g.pos && k.witness - g.pos < size) {
        buf_p[k.witness - g.pos] = k.byte;
    }
    g.pos += size;
    if (res != 0) {
        g.failed = true;
        g.read_failed = true;
    }
    return (res);
}

int vg_process(vg_object_t *self_p, const uint8_t *patch_p, size_t size)
{
    int res;

    VG_ASSERT(!g.failed && g.finals == 0, "nothing is processed after a failure or the end");
    VG_ASSERT(size == g.pos - g.fed, "what was read is processed, no more and no less");
    VG_ASSERT(__CPROVER_r_ok(patch_p, size), "patch data is readable");
    if (k.witness >= g.fed && k.witness - g.fed < size) {
        VG_ASSERT(patch_p[k.witness - g.fed] == k.byte, "patch data is handed on unchanged");
    }
    VG_ASSERT(self_p->patch_size == k.size && self_p->arg_p == &arg, "object as initialised");
    g.fed += size;
    VG_ASSUME(res <= 0);
    if (res != 0) {
        g.failed = true;
        g.res = res;
    }
    return (res);
}

int vg_finalize(vg_object_t *self_p)
{
    VG_ASSERT(self_p->arg_p == &arg, "object as initialised");
    g.finals++;
    return (g.final_res);
}

#ifdef VG_IN_PLACE
static int vg_mem_read(void *a, void *d, uintptr_t s, size_t n) { return (0); }
static int vg_mem_write(void *a, uintptr_t d, void *s, size_t n) { return (0); }
static int vg_mem_erase(void *a, uintptr_t d, size_t n) { return (0); }
static int vg_step_set(void *a, int s) { return (0); }
static int vg_step_get(void *a, int *s) { return (0); }
#else
static int vg_from_read(void *a, uint8_t *b, size_t n) { return (0); }
static int vg_from_seek(void *a, int n) { return (0); }
static int vg_to_write(void *a, const uint8_t *b, size_t n) { return (0); }
#endif

void harness(void)
{
    int res;

    __CPROVER_havoc_object(&k);
    __CPROVER_havoc_object(&g);
    g.pos = g.fed = 0;
    g.finals = 0;
    g.failed = g.read_failed = false;

#ifdef VG_IN_PLACE
    res = detools_apply_patch_in_place_callbacks(vg_mem_read, vg_mem_write, vg_mem_erase,
                                                 vg_step_set, vg_step_get, vg_patch_read,
                                                 k.size, &arg);
#else
    res = detools_apply_patch_callbacks(vg_from_read, vg_from_seek, vg_patch_read, k.size,
                                        vg_to_write, &arg);
#endif

    VG_ASSERT(g.finals == 1, "finalized exactly once");
    if (g.failed) {
        VG_COVER("failure");
        VG_ASSERT(res < 0, "failure is reported");
        VG_ASSERT(!g.read_failed || res == -DETOOLS_IO_FAILED,
                  "failing patch read is an input/output failure");
        VG_ASSERT(g.read_failed || res == g.res, "error of process is passed on");
    } else {
        VG_COVER("whole patch");
        VG_ASSERT(g.fed == k.size, "the whole patch has been processed");
        VG_ASSERT(res == g.final_res, "result of finalize is passed on");
    }
}
