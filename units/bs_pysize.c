/* The pack_size() Python calls: the bytes pack_size() gives (unit bs_pack)
   for the integer it was given, or the exception of an integer that does not
   fit in 64 bits. */
#include "vg.h"
#include <Python.h>

static PyObject *arg_p;
static PyObject result;
static long long value;
static bool fits;
static bool failed;
static int made;
static uint8_t entry[10];
static Py_ssize_t entry_size;

/* Not variadic, as a write set has to be passed on. */
#undef PyErr_Format
#define PyErr_Format(type_p, ...) vg_error()

PyObject *vg_error(void)
{
    failed = true;
    return (NULL);
}

long long PyLong_AsLongLong(PyObject *o_p)
{
    VG_ASSERT(o_p == arg_p, "the integer given");
    if (!fits) {
        failed = true;
        return (-1);
    }
    return (value);
}

PyObject *PyErr_Occurred(void)
{
    return (failed ? &result : NULL);
}

PyObject *PyBytes_FromStringAndSize(const char *buf_p, Py_ssize_t size)
{
    bool ok;
    int i;

    VG_ASSERT(size >= 1 && size <= 10, "one to ten bytes");
    VG_ASSERT(__CPROVER_r_ok(buf_p, size), "bytes inside the buffer");
    if (!ok) {
        failed = true;
        return (NULL);
    }
    for (i = 0; i < 10; i++) {
        if (i < size) {
            entry[i] = buf_p[i];
        }
    }
    entry_size = size;
    made++;
    return (&result);
}

#include "/repo/detools/bsdiff.c"

void harness(void)
{
    PyObject *res_p;
    long long v;
    bool f;
    uint64_t magnitude;
    uint64_t spec;
    int i;

    arg_p = (PyObject *)&arg_p;
    value = v;
    fits = f;
    failed = false;
    made = 0;
    res_p = m_pack_size(NULL, arg_p);
    if (failed) {
        VG_COVER("failure");
        VG_ASSERT(res_p == NULL, "failure is reported");
        return;
    }
    VG_COVER("packed");
    VG_ASSERT(res_p == &result && made == 1 && fits, "one byte string, of an integer that fits");
    magnitude = (v < 0 ? -(uint64_t)v : (uint64_t)v);
    spec = entry[0] & 0x3f;
    for (i = 0; i < 10; i++) {
        if (i < entry_size) {
            VG_ASSERT(((entry[i] & 0x80) != 0) == (i < entry_size - 1),
                      "the last byte, and only that, ends the size");
            if (i > 0) {
                VG_ASSERT(i < 9 || (entry[i] & 0x7c) == 0, "magnitude of 64 bits");
                spec |= ((uint64_t)(entry[i] & 0x7f) << (6 + 7 * (i - 1)));
            }
        }
    }
    VG_ASSERT(spec == magnitude, "magnitude");
    VG_ASSERT(v == 0 || ((entry[0] & 0x40) != 0) == (v < 0), "sign");
}
