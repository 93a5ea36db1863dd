SEEDS = []
def seed(id, prop, needs, breaks, edits, main, pre=''):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits,
                      files={'demo.c': '#include "demo.h"\n' + pre + '\nint main(void)\n{\n' + main + '\n    return 0;\n}\n'}))

D = 'c/detools.c'
OLD = '    for (int i = 0; i < 4096; i++) d_old[i] = (uint8_t)(i * 7 + i / 256);\n    d_old_size = 4096;\n'


seed('seq-adjust-clamped', 'C01',
     'an adjustment that leaves the position before the beginning of the old image, and a later one that comes back',
     'A position before the beginning of the old image is replaced by zero, so that later adjustments start from the wrong place.',
     [(D, '    res = self_p->from_seek(self_p->arg_p, offset);\n', '    if ((offset < 0) && (self_p->from_offset < -offset)) {\n        offset = -self_p->from_offset;\n    }\n\n    res = self_p->from_seek(self_p->arg_p, offset);\n')],
     OLD + '''    buf_t p = {0};
    put_header(&p, 0, 20);
    put_size(&p, 0); put_size(&p, 10); for (int i = 0; i < 10; i++) put(&p, 0);
    put_size(&p, 0); put_size(&p, -30);
    put_size(&p, 0);
    put_size(&p, 0); put_size(&p, 25);
    put_size(&p, 10); for (int i = 0; i < 10; i++) put(&p, 0);
    put_size(&p, 0); put_size(&p, 0);
    CHECK(d_apply(&p, 1000) == 20);
    CHECK(memcmp(d_out.b, d_old, 10) == 0);
    CHECK(memcmp(d_out.b + 10, d_old + 5, 10) == 0);''')

seed('seq-empty-record-refused', 'C01',
     'a patch whose first record has neither diff nor extra data, only an adjustment',
     'A record without data before the first image byte is taken for corruption.',
     [(D, '    if (res != 0) {\n        return (res);\n    }\n\n    self_p->state = next_state;\n    self_p->chunk_size = (size_t)size;\n\n    return (res);\n}\n\nstatic int process_data(struct detools_apply_patch_t *self_p',
          '    if (res != 0) {\n        return (res);\n    }\n\n    if ((size == 0) && (self_p->to_offset == 0)\n        && (next_state == detools_apply_patch_state_extra_data_t)) {\n        return (-DETOOLS_CORRUPT_PATCH);\n    }\n\n    self_p->state = next_state;\n    self_p->chunk_size = (size_t)size;\n\n    return (res);\n}\n\nstatic int process_data(struct detools_apply_patch_t *self_p')],
     OLD + '''    buf_t p = {0};
    put_header(&p, 0, 10);
    put_size(&p, 0); put_size(&p, 0); put_size(&p, 0); put_size(&p, 100);
    put_size(&p, 10); for (int i = 0; i < 10; i++) put(&p, 0);
    put_size(&p, 0); put_size(&p, 0);
    CHECK(d_apply(&p, 1000) == 10);
    CHECK(memcmp(d_out.b, d_old + 100, 10) == 0);''')

seed('seq-empty-image-needs-data', 'C01',
     'a patch for an empty new image',
     'The empty image is no longer complete right after the header; the patch is refused as too short.',
     [(D, '''    if (to_size > 0) {
        self_p->state = detools_apply_patch_state_dfpatch_size_t;
    } else {
        self_p->state = detools_apply_patch_state_done_t;
    }

    return (res);
}

static int process_init(''', '''    self_p->state = detools_apply_patch_state_dfpatch_size_t;

    return (res);
}

static int process_init(''')],
     OLD + '''    buf_t p = {0};
    put_header(&p, 0, 0);
    CHECK(d_apply(&p, 1000) == 0);''')

seed('seq-large-diff-carry', 'C05',
     'a full buffer of 128 diff bytes cut by a chunk boundary so that fewer bytes come from the reader than asked for',
     'The old image is read ahead for the bytes asked for while fewer were decoded, and the position is put back one time too few.',
     [(D, '''        res = self_p->from_read(self_p->arg_p, &from[0], to_size);

        if (res != 0) {
            return (-DETOOLS_IO_FAILED);
        }

        self_p->from_offset += to_size;
''', '''        res = self_p->from_read(self_p->arg_p,
                                &from[0],
                                (to_size > 1 ? to_size & ~(size_t)1 : to_size));

        if (res != 0) {
            return (-DETOOLS_IO_FAILED);
        }

        if ((to_size > 1) && ((to_size & 1) == 1)
            && (self_p->from_read(self_p->arg_p, &from[to_size - 1], 1) != 0)) {
            from[to_size - 1] = 0;
        }

        self_p->from_offset += to_size;
''')],
     OLD + '''    buf_t p = {0};
    put_header(&p, 0, 7);
    put_size(&p, 0); put_size(&p, 7); for (int i = 0; i < 7; i++) put(&p, 1);
    put_size(&p, 0); put_size(&p, 0);
    CHECK(d_apply(&p, 1000) == 7);
    d_fail_read = 1;
    int r = d_apply(&p, 1000);
    CHECK(r < 0 || d_reads == 1);''')
seed('seq-overflow-eight-bytes', 'C13',
     'a size of six or more bytes in the patch data',
     'The overflow check of sizes no longer applies to bytes whose seven bits are all zero, so that the shift count grows beyond the width of an int.',
     [(D, '            if (is_overflow(self_p->size.offset)) {', '            if (is_overflow(self_p->size.offset) && ((byte & 0x7f) != 0)) {')],
     OLD + '''    buf_t p = {0};
    put_header(&p, 0, 4);
    put_size(&p, 0);
    put(&p, 0x84); for (int i = 0; i < 5; i++) put(&p, 0x80); put(&p, 0);
    for (int i = 0; i < 4; i++) put(&p, 1);
    put_size(&p, 0); put_size(&p, 0);
    CHECK(d_apply(&p, 1000) == -DETOOLS_CORRUPT_PATCH_OVERFLOW);''')

seed('seq-write-failure-code', 'C05',
     'a write callback failing for the last bytes of a diff or extra block',
     'The result of the write callback is only looked at when the block is not complete.',
     [(D, '    res = self_p->to_write(self_p->arg_p, &to[0], to_size);\n\n    if (res != 0) {', '    res = self_p->to_write(self_p->arg_p, &to[0], to_size);\n\n    if ((res != 0) && (self_p->chunk_size > 0)) {')],
     OLD + '''    buf_t p = {0};
    put_header(&p, 0, 8);
    put_size(&p, 0); put_size(&p, 0); put_size(&p, 8); for (int i = 0; i < 8; i++) put(&p, i);
    put_size(&p, 0);
    CHECK(d_apply(&p, 1000) == 8);
    d_fail_write = 0;
    CHECK(d_apply(&p, 1000) < 0);''')

seed('seq-from-offset-not-kept', 'C06',
     'dump after an adjustment that moves backwards, then restore and read',
     'The offset in the old image kept for dumping ignores backward adjustments.',
     [(D, '''    self_p->state = dumped.state;
    self_p->patch_size = dumped.patch_size;
''', '''    self_p->state = dumped.state;
    self_p->patch_size = dumped.patch_size;

    if (dumped.from_offset < 0) {
        dumped.from_offset = 0;
    }
''')],
     OLD + '''    buf_t p = {0};
    static struct detools_apply_patch_t s, t;
    put_header(&p, 0, 20);
    put_size(&p, 0); put_size(&p, 5); for (int i = 0; i < 5; i++) put(&p, 0);
    put_size(&p, 0); put_size(&p, -9);
    size_t cut = p.n;
    put_size(&p, 15); for (int i = 0; i < 15; i++) put(&p, 3);
    put_size(&p, 0); put_size(&p, 0);
    CHECK(d_apply(&p, 1000) == 20);
    static buf_t want; want = d_out;
    d_init(&s, p.n);
    CHECK(d_feed(&s, &p, 0, cut, 1000) == 0);
    CHECK(detools_apply_patch_dump(&s, st_write) == 0);
    static buf_t first; first = d_out;
    d_init(&t, p.n);
    CHECK(detools_apply_patch_restore(&t, st_read) == 0);
    d_out = first;
    CHECK(d_feed(&t, &p, detools_apply_patch_get_patch_offset(&t), p.n, 1000) == 0);
    CHECK(detools_apply_patch_finalize(&t) == 20);
    CHECK(memcmp(d_out.b, want.b, 20) == 0);''',
     pre='''static uint8_t st[1 << 16]; static size_t st_n, st_r;
static int st_write(void *a, const void *b, size_t n) { memcpy(st + st_n, b, n); st_n += n; return 0; }
static int st_read(void *a, void *b, size_t n) { memcpy(b, st + st_r, n); st_r += n; return 0; }''')

seed('seq-done-before-last-adjust', 'C04',
     'a patch ending right after the diff data of the last record, the extra size missing',
     'Finalize accepts a patch that ends before its last extra size and adjustment if all image bytes were written.',
     [(D, '''    do
    DETOOLS_LOOP_CONTRACT(finalize, self_p, res)
    {
        res = apply_patch_process_once(self_p);
    } while (res == 0);

    return (apply_patch_common_finalize(res,''', '''    do
    DETOOLS_LOOP_CONTRACT(finalize, self_p, res)
    {
        res = apply_patch_process_once(self_p);
    } while (res == 0);

    if ((res == 1) && (self_p->state == detools_apply_patch_state_adjustment_t)
        && (self_p->to_offset == self_p->to_size)) {
        res = 0;
    }

    return (apply_patch_common_finalize(res,''')],
     OLD + '''    buf_t p = {0};
    put_header(&p, 2, 8);
    put(&p, 0); put_usize(&p, 11);
    put_size(&p, 0); put_size(&p, 8); for (int i = 0; i < 8; i++) put(&p, i);
    put_size(&p, 0);
    static struct detools_apply_patch_t s;
    d_init(&s, p.n + 1);
    CHECK(d_feed(&s, &p, 0, p.n, 1000) == 0);
    CHECK(detools_apply_patch_finalize(&s) < 0);''')

seed('crle-repeat-buffer-split', 'C10',
     'a repeated segment read in several requests, the first of which takes an exact part of it',
     'The number of repetitions left is reduced by the size asked for instead of the size delivered.',
     [],
     'CHECK(0);')
SEEDS.pop()
