/* Memory access and steps of in-place application: nothing is done for a
   completed step, and failures are reported. */
#include "/repo/c/detools.h"
#include "vg.h"

static struct {
    int calls;
    int gets;
    int sets;
    bool has_get;
    bool has_set;
    int get_res;
    int res;
    int set_res;
    int stored;
    int set_to;
    void *buf_p;
    uintptr_t addr;
    size_t size;
} vg;

static void *vg_arg_p;

static int vg_read(void *arg_p, void *dst_p, uintptr_t src, size_t size)
{
    VG_ASSERT(arg_p == vg_arg_p && dst_p == vg.buf_p && src == vg.addr && size == vg.size,
              "memory is read as asked for");
    vg.calls++;

    return (vg.res);
}

static int vg_write(void *arg_p, uintptr_t dst, void *src_p, size_t size)
{
    VG_ASSERT(arg_p == vg_arg_p && src_p == vg.buf_p && dst == vg.addr && size == vg.size,
              "memory is written as asked for");
    vg.calls++;

    return (vg.res);
}

static int vg_erase(void *arg_p, uintptr_t addr, size_t size)
{
    VG_ASSERT(arg_p == vg_arg_p && addr == vg.addr && size == vg.size,
              "memory is erased as asked for");
    vg.calls++;

    return (vg.res);
}

static int vg_get(void *arg_p, int *step_p)
{
    VG_ASSERT(arg_p == vg_arg_p, "user data is handed on");
    vg.gets++;

    if (vg.get_res == 0) {
        *step_p = vg.stored;
    }

    return (vg.get_res);
}

static int vg_set(void *arg_p, int step)
{
    VG_ASSERT(arg_p == vg_arg_p, "user data is handed on");
    vg.sets++;
    vg.set_to = step;

    return (vg.set_res);
}

#include "/repo/c/detools.c"

static struct detools_apply_patch_in_place_t s;

void harness(void)
{
    int res;
    int step;
    bool completed;
    size_t i;

    __CPROVER_havoc_object(&s);
    __CPROVER_havoc_object(&vg);
    vg.calls = vg.gets = vg.sets = 0;
    s.mem_read = vg_read;
    s.mem_write = vg_write;
    s.mem_erase = vg_erase;
    s.step_get = (vg.has_get ? vg_get : NULL);
    s.step_set = (vg.has_set ? vg_set : NULL);
    vg_arg_p = s.arg_p;
    VG_ASSUME(s.ongoing_step >= 1 && s.ongoing_step < INT_MAX);
    step = s.ongoing_step;
    completed = (vg.has_get && step <= vg.stored);
    VG_ASSUME(vg.size >= 1 && vg.size <= VG_MAX27);
    vg.buf_p = malloc(vg.size);
    VG_ASSUME(vg.buf_p != NULL);

#if VG_CASE == 0
    res = in_place_mem_read(&s, vg.buf_p, vg.addr, vg.size);
#elif VG_CASE == 1
    res = in_place_mem_write(&s, vg.addr, vg.buf_p, vg.size);
#elif VG_CASE == 2
    res = in_place_mem_erase(&s, vg.addr, vg.size);
#elif VG_CASE == 3
    res = in_place_next_step(&s);
#else
    res = in_place_all_steps_completed(&s);
#endif

#if VG_CASE <= 2
    if (vg.has_get && vg.get_res != 0) {
        VG_COVER("step get fails");
        VG_ASSERT(res == -DETOOLS_STEP_GET_FAILED && vg.calls == 0,
                  "failure to get the step is reported, the memory untouched");
    } else if (completed) {
        VG_COVER("completed step");
        VG_ASSERT(res == 0 && vg.calls == 0, "a completed step is not done again");
    } else {
        VG_COVER("memory accessed");
        VG_ASSERT(vg.calls == 1 && res == (vg.res == 0 ? 0 : -DETOOLS_IO_FAILED),
                  "the memory is accessed once, failures are reported");
    }
    VG_ASSERT(vg.sets == 0 && s.ongoing_step == step, "no step is stored");
#elif VG_CASE == 3
    VG_ASSERT(vg.calls == 0 && vg.sets <= 1, "only the step is stored");
    if (vg.has_set && vg.has_get && vg.get_res != 0) {
        VG_COVER("step get fails");
        VG_ASSERT(res == -DETOOLS_STEP_GET_FAILED && vg.sets == 0,
                  "failure to get the step is reported");
    } else if (!vg.has_set || completed) {
        VG_COVER("nothing to store");
        VG_ASSERT(res == 0 && vg.sets == 0, "a completed step is not stored again");
    } else {
        VG_COVER("step stored");
        VG_ASSERT(vg.sets == 1 && vg.set_to == step
                  && res == (vg.set_res == 0 ? 0 : -DETOOLS_STEP_SET_FAILED),
                  "the completed step is stored, failures are reported");
    }
    VG_ASSERT(res < 0 || s.ongoing_step == step + 1, "the next step begins");
#else
    VG_COVER("all steps completed");
    VG_ASSERT(vg.sets == (vg.has_set ? 1 : 0) && (!vg.has_set || vg.set_to == 0),
              "zero is stored at the end");
    VG_ASSERT(res == (vg.has_set && vg.set_res != 0 ? -DETOOLS_STEP_SET_FAILED : 0),
              "failures are reported");
    VG_ASSERT(vg.calls == 0 && vg.gets == 0 && s.ongoing_step == step, "nothing else is done");
#endif
}
