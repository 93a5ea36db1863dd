/* The functions Python calls: buffers inside their bounds, every buffer
   that was taken given back exactly once on every path, add_bytes() adds
   the common length byte by byte and refuses different lengths.
   create_patch_loop() by the contract of unit bs_loop. */
#include "vg.h"
#include <Python.h>

#define VG_VIEWS (VG_CASE == 0 ? 4 : 2)

static struct {
    int args;               /* arguments parsed */
    int held;               /* views taken and not given back */
    int refs;               /* references to the result */
    bool failed;
    bool error;             /* a Python exception is set */
    int calls;
} g;

static PyObject *args_p;
static PyObject object[4];
static PyObject result;
static Py_buffer *view[4];
static void *buf[4];
static Py_ssize_t len[4];
static Py_ssize_t any;
static uint8_t *result_p;

#define DETOOLS_LOOP_bsdiff_add(i)                                       \
    __CPROVER_assigns(i, __CPROVER_object_whole(result_p))               \
    __CPROVER_loop_invariant(i >= 0 && i <= len[0]                       \
        && (any >= i || result_p[any]                                    \
            == (uint8_t)(((uint8_t *)buf[0])[any]                        \
                         + ((uint8_t *)buf[1])[any])))                   \
    __CPROVER_decreases(len[0] - i)

/* PyArg_ParseTuple(). Not variadic, as a write set has to be passed on. */
#undef PyArg_ParseTuple
#define VG_PARSE(a, format, p, q, r, s, ...) vg_parse(a, format, p, q, r, s)
#define PyArg_ParseTuple(a, format, ...) VG_PARSE(a, format, __VA_ARGS__, NULL, NULL, NULL)

int vg_parse(PyObject *a_p, const char *format_p, PyObject **p_p, PyObject **q_p,
             PyObject **r_p, PyObject **s_p)
{
    bool ok;

    VG_ASSERT(a_p == args_p, "arguments given");
#if VG_CASE == 0
    VG_ASSERT(format_p[0] == 'O' && format_p[1] == 'O' && format_p[2] == 'O'
              && format_p[3] == 'O' && format_p[4] == '\0', "four objects");
#else
    VG_ASSERT(format_p[0] == 'O' && format_p[1] == 'O' && format_p[2] == '\0', "two objects");
#endif
    if (!ok) {
        g.failed = g.error = true;
        return (0);
    }
    *p_p = &object[0];
    *q_p = &object[1];
#if VG_CASE == 0
    *r_p = &object[2];
    *s_p = &object[3];
#endif
    g.args = VG_VIEWS;
    return (1);
}

/* One argument's buffer. */
static int give(int i, PyObject *o_p, Py_buffer *view_p)
{
    bool ok;

    VG_ASSERT(view[i] == NULL, "taken once");
    if (!ok) {
        g.failed = g.error = true;
        return (-1);
    }
    view[i] = view_p;
    view_p->buf = buf[i];
    view_p->len = len[i];
    view_p->obj = o_p;
    g.held++;
    return (0);
}

int PyObject_GetBuffer(PyObject *o_p, Py_buffer *view_p, int flags)
{
    VG_ASSERT(g.args == VG_VIEWS, "arguments parsed");
    if (o_p == &object[0]) {
        return (give(0, o_p, view_p));
    } else if (o_p == &object[1]) {
        return (give(1, o_p, view_p));
#if VG_CASE == 0
    } else if (o_p == &object[2]) {
        return (give(2, o_p, view_p));
    } else if (o_p == &object[3]) {
        return (give(3, o_p, view_p));
#endif
    }
    VG_ASSERT(false, "an argument");
    return (-1);
}

void PyBuffer_Release(Py_buffer *view_p)
{
    if (view[0] == view_p) {
        view[0] = NULL;
    } else if (view[1] == view_p) {
        view[1] = NULL;
    } else if (view[2] == view_p && VG_CASE == 0) {
        view[2] = NULL;
    } else if (view[3] == view_p && VG_CASE == 0) {
        view[3] = NULL;
    } else {
        VG_ASSERT(false, "only what was taken, and once");
    }
    g.held--;
}

void PyErr_SetString(PyObject *type_p, const char *text_p)
{
    g.failed = g.error = true;
}

static PyObject *make(void)
{
    bool ok;

    VG_ASSERT(g.refs == 0, "one result");
    if (!ok) {
        g.failed = g.error = true;
        return (NULL);
    }
    result.ob_refcnt = 1;
    g.refs = 1;
    return (&result);
}

PyObject *PyList_New(Py_ssize_t size)
{
    VG_ASSERT(size == 0, "an empty list");
    return (make());
}

PyObject *PyByteArray_FromStringAndSize(const char *text_p, Py_ssize_t size)
{
    VG_ASSERT(size >= 0 && __CPROVER_r_ok(text_p, size), "initial bytes");
    return (make());
}

int PyByteArray_Resize(PyObject *o_p, Py_ssize_t size)
{
    bool ok;

    VG_ASSERT(o_p == &result && g.refs == 1, "the result");
    VG_ASSERT(size >= 0, "size");
    if (!ok) {
        g.failed = g.error = true;
        return (-1);
    }
    VG_ASSERT(size == len[0], "as long as the byte strings added");
    result_p = malloc(size);
    VG_ASSUME(result_p != NULL);
    return (0);
}

char *PyByteArray_AsString(PyObject *o_p)
{
    VG_ASSERT(o_p == &result && g.refs == 1, "the result");
    return ((char *)result_p);
}

void _Py_Dealloc(PyObject *o_p)
{
    VG_ASSERT(o_p == &result, "only the result is freed");
    g.refs--;
}

#include "/repo/detools/bsdiff.c"

int vg_loop(PyObject *list_p, int32_t *sa_p, uint8_t *from_p, Py_ssize_t from_size,
            uint8_t *to_p, Py_ssize_t to_size, uint8_t *debuf_p)
{
    int res;

    VG_ASSERT(list_p == &result && g.refs == 1, "an empty list");
    VG_ASSERT(g.held == 4, "all buffers held");
    VG_ASSERT((void *)sa_p == buf[0], "first argument: suffix array");
    VG_ASSERT(from_p == buf[1] && from_size == len[1], "second argument: old image");
    VG_ASSERT(to_p == buf[2] && to_size == len[2], "third argument: new image");
    VG_ASSERT(debuf_p == buf[3], "fourth argument: work buffer");
    g.calls++;
    if (res != 0) {
        g.failed = true;
    }
    return (res);
}

static void input(int i)
{
    Py_ssize_t n;

    VG_ASSUME(n >= 0 && n < (1 << 30));
    len[i] = n;
    buf[i] = malloc(n);
    VG_ASSUME(buf[i] != NULL);
    view[i] = NULL;
}

void harness(void)
{
    PyObject *res_p;
    Py_ssize_t a;

    args_p = (PyObject *)&args_p;
    input(0);
    input(1);
    if (VG_VIEWS == 4) {
        input(2);
        input(3);
    }
    VG_ASSUME(a >= 0);
    any = a;
    g.args = g.held = g.refs = g.calls = 0;
    g.failed = g.error = false;
    result_p = NULL;

#if VG_CASE == 0
    res_p = m_create_patch(NULL, args_p);
    VG_ASSERT(g.failed || g.calls == 1, "one patch");
#else
    res_p = m_add_bytes(NULL, args_p);
    if (res_p != NULL) {
        VG_ASSERT(len[0] == len[1], "different lengths are refused");
        VG_ASSERT(a >= len[0]
                  || result_p[a] == (uint8_t)(((uint8_t *)buf[0])[a] + ((uint8_t *)buf[1])[a]),
                  "each byte is the sum");
    }
#endif

    VG_ASSERT(g.held == 0, "every buffer is given back");
    if (g.failed) {
        VG_COVER("failure");
        VG_ASSERT(res_p == NULL, "failure is reported");
        VG_ASSERT(g.refs == 0, "no result is left behind");
    } else {
        VG_COVER("result");
        VG_ASSERT(res_p == &result && g.refs == 1 && result.ob_refcnt == 1, "one result");
    }
}
