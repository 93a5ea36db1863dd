/* append_bytes(), append_size() and append_buffer(): one list entry with
   the bytes given, one with the size packed as unit bs_pack has it, both in
   order; a failing list or allocation is reported and every reference that
   was taken is given back. */
#include "vg.h"
#include <Python.h>

static struct {
    int count;              /* entries in the list */
    int32_t size[2];
    uint8_t head[2][10];    /* first bytes of each entry */
    uint8_t byte;           /* arbitrary byte of the last entry */
    int32_t any;
    int live;               /* byte strings not yet given back */
    bool failed;
} g;

static PyObject *list_p;
static PyObject bytes[2];
static int32_t made_size;
static uint8_t made_head[10];
static uint8_t made_byte;
static int made;

PyObject *PyBytes_FromStringAndSize(const char *buf_p, Py_ssize_t size)
{
    bool ok;
    int i;

    VG_ASSERT(size >= 0, "size of a byte string is not negative");
    VG_ASSERT(__CPROVER_r_ok(buf_p, size), "bytes inside the buffer");
    if (!ok) {
        g.failed = true;
        return (NULL);
    }
    VG_ASSERT(made < 2, "no more byte strings than entries");
    made_size = size;
    for (i = 0; i < 10; i++) {
        if (i < size) {
            made_head[i] = buf_p[i];
        }
    }
    if (g.any < size) {
        made_byte = buf_p[g.any];
    }
    g.live++;
    bytes[made].ob_refcnt = 1;
    return (&bytes[made++]);
}

int PyList_Append(PyObject *l_p, PyObject *item_p)
{
    bool ok;
    int i;

    VG_ASSERT(l_p == list_p, "the list of the patch");
    VG_ASSERT(made > 0 && item_p == &bytes[made - 1] && item_p->ob_refcnt == 1,
              "the byte string just made");
    if (!ok) {
        g.failed = true;
        return (-1);
    }
    item_p->ob_refcnt++;
    g.size[g.count] = made_size;
    for (i = 0; i < 10; i++) {
        g.head[g.count][i] = made_head[i];
    }
    g.byte = made_byte;
    g.count++;
    return (0);
}

void _Py_Dealloc(PyObject *item_p)
{
    VG_ASSERT(item_p >= bytes && item_p < bytes + 2, "only byte strings are freed");
    g.live--;
}

#include "/repo/detools/bsdiff.c"

/* The size in entry n, by the definition in unit bs_pack. */
static void is_size(int n, int32_t size)
{
    uint64_t magnitude;
    uint64_t spec;
    int i;

    magnitude = (size < 0 ? -(int64_t)size : (int64_t)size);
    VG_ASSERT(g.size[n] >= 1 && g.size[n] <= 10, "size entry has one to ten bytes");
    spec = g.head[n][0] & 0x3f;
    for (i = 0; i < 10; i++) {
        if (i < g.size[n]) {
            VG_ASSERT(((g.head[n][i] & 0x80) != 0) == (i < g.size[n] - 1),
                      "the last byte, and only that, ends the size");
            if (i > 0 && i < 9) {
                spec |= ((uint64_t)(g.head[n][i] & 0x7f) << (6 + 7 * (i - 1)));
            }
        }
    }
    VG_ASSERT(spec == magnitude, "size entry: magnitude");
    VG_ASSERT(size == 0 || ((g.head[n][0] & 0x40) != 0) == (size < 0), "size entry: sign");
}

void harness(void)
{
    int res;
    int i;
    int which;
    int32_t size;
    int32_t any;
    uint8_t byte;
    uint8_t *buf_p;

    list_p = (PyObject *)&list_p;
    g.count = g.live = made = 0;
    g.failed = false;
    VG_ASSUME(any >= 0);
    g.any = any;

    if (which == 0) {
        res = append_size(list_p, size);
    } else {
        VG_ASSUME(size >= 0);
        buf_p = malloc(size);
        VG_ASSUME(buf_p != NULL);
        if (any < size) {
            byte = buf_p[any];
        }
        if (which == 1) {
            res = append_bytes(list_p, buf_p, size);
        } else {
            res = append_buffer(list_p, buf_p, size);
        }
    }

    VG_ASSERT((res == 0) == !g.failed, "a failure, and only a failure, is reported");
    VG_ASSERT(g.live == g.count, "references not in the list are given back");
    for (i = 0; i < 2; i++) {
        if (i < made) {
            VG_ASSERT(bytes[i].ob_refcnt == (i < g.count ? 1 : 0), "one reference, in the list");
        }
    }

    if (res != 0) {
        VG_COVER("failure");
        return;
    }

    if (which == 0) {
        VG_COVER("size");
        VG_ASSERT(g.count == 1, "one entry");
        is_size(0, size);
    } else if (which == 1) {
        VG_COVER("bytes");
        VG_ASSERT(g.count == 1 && g.size[0] == size, "one entry of the size given");
        VG_ASSERT(any >= size || g.byte == byte, "the bytes given");
    } else {
        VG_COVER("buffer");
        VG_ASSERT(g.count == 2, "two entries");
        is_size(0, size);
        VG_ASSERT(g.size[1] == size, "data entry of the size given");
        VG_ASSERT(any >= size || g.byte == byte, "data entry: the bytes given");
    }
}
