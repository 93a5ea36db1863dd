/* Small helpers for demonstrations: builds patches by hand and applies
   them to an old image in memory. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "detools.h"

typedef struct { uint8_t b[1 << 16]; size_t n; } buf_t;

static void put(buf_t *p, int v) { p->b[p->n++] = (uint8_t)v; }
static void put_bytes(buf_t *p, const void *q, size_t n) { memcpy(p->b + p->n, q, n); p->n += n; }
/* six bits with sign, then seven bits per byte */
static void put_size(buf_t *p, long long v)
{
    int sign = v < 0 ? 0x40 : 0;
    unsigned long long u = v < 0 ? (unsigned long long)-v : (unsigned long long)v;
    int b = (int)(u & 0x3f) | sign;
    u >>= 6;
    while (u > 0) { put(p, b | 0x80); b = (int)(u & 0x7f); u >>= 7; }
    put(p, b);
}

static void put_usize(buf_t *p, unsigned long long u)
{
    while (u > 127) { put(p, (int)(u & 0x7f) | 0x80); u >>= 7; }
    put(p, (int)u);
}

/* old image, output, and what the callbacks saw */
static uint8_t d_old[1 << 16];
static size_t d_old_size;
static long long d_pos;
static buf_t d_out;
static int d_reads, d_seeks, d_writes;
static int d_fail_read = -1, d_fail_seek = -1, d_fail_write = -1; /* number of the failing call */

static int d_from_read(void *a, uint8_t *b, size_t n)
{
    (void)a;
    if (d_reads++ == d_fail_read) return 1;
    for (size_t i = 0; i < n; i++)
        b[i] = (d_pos + (long long)i >= 0 && d_pos + (long long)i < (long long)d_old_size
                ? d_old[d_pos + (long long)i] : 0);
    d_pos += (long long)n;
    return 0;
}
static int d_from_seek(void *a, int off)
{
    (void)a;
    if (d_seeks++ == d_fail_seek) return 1;
    d_pos += off;
    return 0;
}
static int d_to_write(void *a, const uint8_t *b, size_t n)
{
    (void)a;
    if (d_writes++ == d_fail_write) return 1;
    put_bytes(&d_out, b, n);
    return 0;
}
static void d_reset(void)
{
    d_pos = 0; d_out.n = 0; d_reads = d_seeks = d_writes = 0;
}
static void d_init(struct detools_apply_patch_t *s, size_t patch_size)
{
    d_reset();
    detools_apply_patch_init(s, d_from_read, d_from_seek, patch_size, d_to_write, NULL);
}
/* feeds [from, to) in pieces of the given size; first negative result */
static int d_feed(struct detools_apply_patch_t *s, const buf_t *p, size_t from, size_t to, size_t step)
{
    int res = 0;
    while (from < to) {
        size_t n = to - from < step ? to - from : step;
        uint8_t *q = malloc(n);
        memcpy(q, p->b + from, n);
        res = detools_apply_patch_process(s, q, n);
        free(q);
        if (res < 0) return res;
        from += n;
    }
    return res;
}
static int d_apply(const buf_t *p, size_t step)
{
    struct detools_apply_patch_t *s = malloc(sizeof(*s));
    int res, fin;
    memset(s, 0xa5, sizeof(*s));
    d_init(s, p->n);
    res = d_feed(s, p, 0, p->n, step);
    fin = detools_apply_patch_finalize(s);
    free(s);
    return res < 0 ? res : fin;
}
/* sequential header */
static void put_header(buf_t *p, int compression, size_t to_size)
{
    put(p, compression);
    put_size(p, (long long)to_size);
}
#define CHECK(c) do { if (!(c)) { printf("failed: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)

/* in-place: memory in RAM with step numbers */
static uint8_t m_mem[1 << 16];
static int m_step, m_fail_at = -1, m_ops;
static char m_log[1 << 16]; static size_t m_logn;
static size_t m_size = sizeof(m_mem);
static int m_bad;
static void m_l(const char *k, uintptr_t a, size_t n)
{
    if (m_logn < sizeof(m_log) - 64)
        m_logn += (size_t)sprintf(m_log + m_logn, "%s %lu+%lu\n", k, (unsigned long)a, (unsigned long)n);
    if (a > m_size || n > m_size - a) m_bad = 1;
}
static int m_read(void *p, void *d, uintptr_t a, size_t n)
{
    (void)p;
    m_l("r", a, n);
    if (m_bad || m_ops++ == m_fail_at) return 1;
    memcpy(d, m_mem + a, n); return 0;
}
static int m_write(void *p, uintptr_t a, void *s, size_t n)
{
    (void)p;
    m_l("w", a, n);
    if (m_bad || m_ops++ == m_fail_at) return 1;
    memcpy(m_mem + a, s, n); return 0;
}
static int m_erase(void *p, uintptr_t a, size_t n)
{
    (void)p;
    m_l("e", a, n);
    if (m_bad || m_ops++ == m_fail_at) return 1;
    memset(m_mem + a, 0xff, n); return 0;
}
static int m_set(void *p, int step) { (void)p; m_l("s", 0, (size_t)step); if (m_ops++ == m_fail_at) return 1; m_step = step; return 0; }
static int m_get(void *p, int *step) { (void)p; *step = m_step; return 0; }
static int m_apply(const buf_t *p, size_t step, int steps)
{
    struct detools_apply_patch_in_place_t *s = malloc(sizeof(*s));
    int res = 0, fin;
    size_t from = 0;
    memset(s, 0xa5, sizeof(*s));
    m_ops = 0; m_logn = 0; m_bad = 0;
    detools_apply_patch_in_place_init(s, m_read, m_write, m_erase,
                                      steps ? m_set : NULL, steps ? m_get : NULL, p->n, NULL);
    while (from < p->n && res >= 0) {
        size_t n = p->n - from < step ? p->n - from : step;
        uint8_t *q = malloc(n);
        memcpy(q, p->b + from, n);
        res = detools_apply_patch_in_place_process(s, q, n);
        free(q);
        from += n;
    }
    fin = detools_apply_patch_in_place_finalize(s);
    free(s);
    return res < 0 ? res : fin;
}
static void put_in_place_header(buf_t *p, int compression, size_t mem, size_t seg, size_t shift, size_t from, size_t to)
{
    put(p, 0x10 | compression);
    put_size(p, (long long)mem); put_size(p, (long long)seg); put_size(p, (long long)shift);
    put_size(p, (long long)from); put_size(p, (long long)to);
}
