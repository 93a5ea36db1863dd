/* Messages of error codes, for every pair of integers. */
#include "vg.h"
#include "/repo/c/detools.h"
#include "/repo/c/detools.c"

static bool vg_is_code(int v)
{
    switch (v) {
    case DETOOLS_NOT_IMPLEMENTED: case DETOOLS_NOT_DONE: case DETOOLS_BAD_PATCH_TYPE:
    case DETOOLS_BAD_COMPRESSION: case DETOOLS_INTERNAL_ERROR: case DETOOLS_LZMA_INIT:
    case DETOOLS_LZMA_DECODE: case DETOOLS_OUT_OF_MEMORY: case DETOOLS_CORRUPT_PATCH:
    case DETOOLS_IO_FAILED: case DETOOLS_ALREADY_DONE: case DETOOLS_FILE_OPEN_FAILED:
    case DETOOLS_FILE_CLOSE_FAILED: case DETOOLS_FILE_READ_FAILED:
    case DETOOLS_FILE_WRITE_FAILED: case DETOOLS_FILE_SEEK_FAILED:
    case DETOOLS_FILE_TELL_FAILED: case DETOOLS_SHORT_HEADER:
    case DETOOLS_NOT_ENOUGH_PATCH_DATA: case DETOOLS_HEATSHRINK_SINK:
    case DETOOLS_HEATSHRINK_POLL: case DETOOLS_STEP_SET_FAILED:
    case DETOOLS_STEP_GET_FAILED: case DETOOLS_ALREADY_FAILED:
    case DETOOLS_CORRUPT_PATCH_OVERFLOW: case DETOOLS_CORRUPT_PATCH_CRLE_KIND:
    case DETOOLS_HEATSHRINK_HEADER:
        return (true);
    default:
        return (false);
    }
}

#define MAX 40

static bool vg_same(const char *a_p, const char *b_p)
{
    int i;

    for (i = 0; i < MAX; i++) {
        if (a_p[i] != b_p[i]) {
            return (false);
        }
        if (a_p[i] == 0) {
            return (true);
        }
    }

    VG_ASSERT(0, "message has an end");
    return (true);
}

void harness(void)
{
    int e;
    int f;
    const char *m_p;
    const char *n_p;
    bool known;

    m_p = detools_error_as_string(e);
    VG_ASSERT(m_p != NULL, "there is a message for every integer");
    VG_ASSERT(m_p[0] != 0, "the message is not empty");
    n_p = detools_error_as_string(f);
    known = (vg_is_code(e) || (e > INT_MIN && vg_is_code(-e)));
    if (!known) {
        VG_COVER("no code");
        VG_ASSERT(vg_same(m_p, "Unknown error."), "any other value is unknown");
    } else if (e == f || e == -(int64_t)f) {
        VG_COVER("same code");
        VG_ASSERT(vg_same(m_p, n_p), "a code and its negation have one message");
    } else {
        VG_COVER("other value");
        VG_ASSERT(!vg_same(m_p, n_p), "every code has a message of its own");
    }
}
