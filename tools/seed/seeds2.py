SEEDS = []
D = 'c/detools.c'
H = 'c/heatshrink/heatshrink_decoder.c'
OLD = '    for (int i = 0; i < 4096; i++) d_old[i] = (uint8_t)(i * 7 + i / 256);\n    d_old_size = 4096;\n'
def seed(id, prop, needs, breaks, edits, main, pre='', sh=None):
    f = {'demo.c': '#include "demo.h"\n' + pre + '\nint main(void)\n{\n' + main + '\n    return 0;\n}\n'}
    if sh:
        f['demo.sh'] = sh
        f['demo.h'] = open('/verif/tools/seed/demo.h').read()
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, files=f))

CR = OLD + '''    buf_t p = {0};
    put_header(&p, 2, 40);
    put(&p, 0); put_usize(&p, 2); put_size(&p, 0); put_size(&p, 30);
'''
seed('crle-empty-run', 'C10', 'a repeated segment of no bytes in the middle of a CRLE stream',
     'The value byte of an empty repeated segment is taken for the next segment.',
     [(D, '    crle_p->state = detools_crle_state_repeated_data_t;\n', '    crle_p->state = (repetitions > 0\n                     ? detools_crle_state_repeated_data_t\n                     : detools_crle_state_idle_t);\n')],
     CR + '''    put(&p, 1); put_usize(&p, 0); put(&p, 1);
    put(&p, 1); put_usize(&p, 30); put(&p, 3);
    put(&p, 0); put_usize(&p, 1); put_size(&p, 10);
    put(&p, 0); put_usize(&p, 11); for (int i = 0; i < 10; i++) put(&p, 'a' + i); put_size(&p, 0);
    CHECK(d_apply(&p, 7) == 40);
    for (int i = 0; i < 30; i++) CHECK(d_out.b[i] == (uint8_t)(d_old[i] + 3));
    CHECK(memcmp(d_out.b + 30, "abcdefghij", 10) == 0);''')
seed('crle-kind-masked', 'C10', 'a segment kind with its highest bit set',
     'A segment kind that does not exist is taken for a scattered or repeated one.',
     [(D, '    switch (kind) {\n\n    case 0:\n        crle_p->state', '    switch (kind & 0x7f) {\n\n    case 0:\n        crle_p->state')],
     CR + '''    put(&p, 0x81); put_usize(&p, 30); put(&p, 3);
    put(&p, 0); put_usize(&p, 1); put_size(&p, 10);
    put(&p, 0); put_usize(&p, 11); for (int i = 0; i < 10; i++) put(&p, 'a' + i); put_size(&p, 0);
    CHECK(d_apply(&p, 1000) == -DETOOLS_CORRUPT_PATCH_CRLE_KIND);''')
seed('crle-scattered-cut', 'C10', 'literal bytes of one segment spread over three or more chunks with a request bigger than each',
     'Bytes left in a literal segment are rounded when a chunk ends inside it.',
     [(D, '    crle_p->kind.scattered.number_of_bytes_left -= *size_p;\n\n    if (crle_p->kind.scattered.number_of_bytes_left == 0) {\n',
       '    crle_p->kind.scattered.number_of_bytes_left -= *size_p;\n\n    if (crle_p->kind.scattered.number_of_bytes_left <= (*size_p > 200)) {\n'),
      (D, '    *size_p = MIN(*size_p, crle_p->kind.scattered.number_of_bytes_left);\n', '    *size_p = MIN(*size_p, crle_p->kind.scattered.number_of_bytes_left);\n\n    if ((*size_p == 127) && (crle_p->kind.scattered.number_of_bytes_left == 128)) {\n        crle_p->kind.scattered.number_of_bytes_left--;\n    }\n')],
     OLD + '''    buf_t p = {0};
    put_header(&p, 2, 127);
    put(&p, 0); put_usize(&p, 4); put_size(&p, 0); put_size(&p, 0); put_size(&p, 127);
    put(&p, 0); put_usize(&p, 128); for (int i = 0; i < 127; i++) put(&p, i); put_size(&p, 0);
    CHECK(d_apply(&p, 1000) == 127);
    for (int i = 0; i < 127; i++) CHECK(d_out.b[i] == i);''')

BITS = '''
static buf_t p; static int nb;
static void bit(int b) { if (nb == 0) put(&p, 0); p.b[p.n - 1] |= (uint8_t)(b << (7 - nb)); nb = (nb + 1) & 7; }
static void bits(unsigned v, int n) { while (n-- > 0) bit((v >> n) & 1); }
static void lit(int v) { bit(1); bits((unsigned)v & 255, 8); }
static void ref(int dist, int count) { bit(0); bits((unsigned)dist - 1, 8); bits((unsigned)count - 1, 7); }
'''
HSH = OLD + '    put_header(&p, 4, 300); put(&p, 0x44);\n'
seed('hs-count-bits-at-end', 'C11', 'a copy whose count ends exactly at the end of a byte at the end of the stream',
     'A count is not taken when exactly its seven bits are left; the decoder asks for more input.',
     [(H, '        if (hsd->bit_index < (1 << (count - 1))) { return NO_BITS; }', '        if (hsd->bit_index <= (1 << (count - 1)) - (count != 7)) { return NO_BITS; }')],
     OLD + '''    put_header(&p, 4, 120); put(&p, 0x44);
    lit(0); lit(0); lit(0x80 | (120 & 0x3f)); lit(1); lit(9); lit(8); lit(7); lit(6); ref(250, 115);
    CHECK(nb == 0);
    d_apply(&p, 1);
    CHECK(d_out.n == 119);
    CHECK(d_out.n > 0);''', BITS)
seed('hs-head-wrap', 'C11', 'a stream of more than 65535 bytes with copies across the point where the position wraps',
     'The position in the window wraps one byte early after 65535 bytes.',
     [(H, '            hsd->head_index++;\n', '            hsd->head_index = (uint16_t)((hsd->head_index + 1) % 0xffff);\n')],
     OLD + '''    put_header(&p, 4, 70000); put(&p, 0x44);
    lit(0); lit(0); lit(0x80 | (70000 & 0x3f)); lit(0x80 | ((70000 >> 6) & 0x7f)); lit(70000 >> 13);
    lit(1); lit(2); lit(3);
    for (int i = 0; i < 560; i++) ref(3, 128);
    struct detools_apply_patch_t *s = malloc(sizeof(*s));
    d_init(s, p.n);
    d_log = 1;
    d_feed(s, &p, 0, p.n, 1000);
    CHECK(!d_wrong);
    CHECK(d_seen == 70000);''', BITS)
for x in SEEDS:
    if x['id'] == 'hs-head-wrap':
        x['files']['demo.c'] = x['files']['demo.c'].replace('#include "demo.h"', '''#include "demo.h"
static int d_log, d_wrong; static long d_seen;
static int cmp_write(void *a, const uint8_t *b, size_t n)
{
    for (size_t i = 0; i < n; i++, d_seen++) {
        int old = 0;
        if (b[i] != (uint8_t)(old + 1 + d_seen % 3)) d_wrong = 1;
    }
    return 0;
}''').replace('    d_init(s, p.n);', '    d_reset();\n    detools_apply_patch_init(s, d_from_read, d_from_seek, p.n, cmp_write, NULL);')
LZSH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -include "$here/count.h" -Ic -Ic/heatshrink -c c/detools.c -o "$d/detools.o" || exit 2
gcc -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -Ic -Ic/heatshrink -I"$here" \\
    "$here/demo.c" "$d/detools.o" c/heatshrink/heatshrink_decoder.c -llzma -o "$d/demo" || exit 2
cd "$d" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
COUNT = '''#ifndef COUNT_H
#define COUNT_H
#include <stdlib.h>
#include <stdio.h>
extern int c_live, c_fail, c_n;
static inline void *c_malloc(size_t n) { if (c_n++ == c_fail) return NULL; c_live++; return malloc(n); }
static inline void c_free(void *p) { if (p) c_live--; free(p); }
#define malloc c_malloc
#define free c_free
#endif
'''
LZ = '''#include <lzma.h>
int c_live, c_fail = -1, c_n;
static void lz(buf_t *p, const buf_t *plain)
{
    lzma_options_lzma o; lzma_stream s = LZMA_STREAM_INIT;
    lzma_lzma_preset(&o, 6);
    lzma_alone_encoder(&s, &o);
    s.next_in = plain->b; s.avail_in = plain->n;
    s.next_out = p->b + p->n; s.avail_out = sizeof(p->b) - p->n;
    while (lzma_code(&s, LZMA_FINISH) == LZMA_OK);
    p->n = sizeof(p->b) - s.avail_out;
    lzma_end(&s);
}
static void image(buf_t *p, int n)
{
    static buf_t q; unsigned r = 1;
    q.n = 0; p->n = 0;
    put_size(&q, 0); put_size(&q, 0); put_size(&q, n);
    for (int i = 0; i < n; i++) { r = r * 1103515245 + 12345; put(&q, (int)(r >> 16)); }
    put_size(&q, 0);
    put_header(p, 1, (size_t)n);
    lz(p, &q);
}
static buf_t p;
'''
def lseed(id, needs, breaks, edits, main):
    seed(id, 'C12', needs, breaks, edits, main, LZ, LZSH)
    SEEDS[-1]['files']['count.h'] = COUNT
lseed('lzma-failed-input', 'no memory for the input buffer while input is kept',
      'The input kept is released before the memory for more is known to be there, and again at the end.',
      [(D, '    next_p = malloc(lzma_p->stream.avail_in + left);\n\n    if (next_p == NULL) {\n        return (-DETOOLS_OUT_OF_MEMORY);\n    }\n',
        '    next_p = malloc(lzma_p->stream.avail_in + left);\n\n    if (next_p == NULL) {\n        lzma_p->stream.avail_in = 0;\n        free(lzma_p->input_p);\n\n        return (-DETOOLS_OUT_OF_MEMORY);\n    }\n')],
      '''    image(&p, 3000);
    for (c_fail = 0; c_fail < 60; c_fail++) {
        c_n = 0; c_live = 0;
        d_apply(&p, 64);
        CHECK(c_live == 0);
    }''')

lseed('lzma-output-lost', 'no memory for a bigger output buffer while output is kept',
      'The buffer with decoded bytes is forgotten when there is no memory for the next one.',
      [(D, '    output_p = malloc(size);\n\n    if (output_p == NULL) {\n', '    output_p = malloc(size);\n\n    if (output_p == NULL) {\n        lzma_p->output_p = NULL;\n')],
      '''    image(&p, 3000);
    for (c_fail = 0; c_fail < 60; c_fail++) {
        c_n = 0; c_live = 0;
        d_apply(&p, 64);
        CHECK(c_live == 0);
    }''')
lseed('lzma-data-error', 'compressed data the decoder finds to be corrupt',
      'What the decoder reports as corrupt data is taken for the end of the data.',
      [(D, '            case LZMA_STREAM_END:\n                break;\n', '            case LZMA_STREAM_END:\n            case LZMA_FORMAT_ERROR:\n                break;\n')],
      '''    image(&p, 3000);
    p.b[3] = 0xff;
    CHECK(d_apply(&p, 1000) == -DETOOLS_LZMA_DECODE);''')

seed('header-size-top-bits', 'C13', 'an announced image of 2^26 bytes or more',
     'The uppermost bit of a four-byte header size is dropped.',
     [(D, '            size_state_p->value |= ((byte & 0x7f) << size_state_p->offset);\n', '            size_state_p->value |= ((byte & 0x7f) << size_state_p->offset);\n            size_state_p->value &= 0x3ffffff;\n')],
     OLD + '''    buf_t p = {0};
    put_header(&p, 0, 1 << 26);
    CHECK(d_apply(&p, 1000) < 0);''')
seed('crle-size-top-bit', 'C13', 'a CRLE segment of 2^27 bytes or more',
     'The uppermost bit of a four-byte segment length is dropped.',
     [(D, '        self_p->value |= ((byte & 0x7f) << self_p->offset);\n        self_p->offset += 7;\n    } while', '        self_p->value |= ((byte & (self_p->offset < 21 ? 0x7f : 0x3f)) << self_p->offset);\n        self_p->offset += 7;\n    } while')],
     OLD + '''    buf_t p = {0};
    put_header(&p, 2, 30);
    put(&p, 0); put_usize(&p, 2); put_size(&p, 0); put_size(&p, 30);
    put(&p, 1); put_usize(&p, (1 << 27)); put(&p, 0);
    CHECK(d_apply(&p, 1000) == 30);
    CHECK(memcmp(d_out.b, d_old, 30) == 0);''')
