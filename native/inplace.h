// In-place application against its reference.
struct Op { char kind; int64_t addr; int64_t size; };

struct RefIp {
    int res = 0;
    bool ok = false;
    bool header = false;     // sizes accepted, memory is touched
    bool known_header = false;
    bool trailing = false;
    bool capped = false;
    bool idempotent = true;
    int64_t memory = 0, seg = 0, shift = 0, from = 0, to = 0;
    Bytes mem;                       // when the reference stops
    std::vector<Bytes> after;        // memory after each step
    std::vector<Op> ops;             // with 's' markers
    int moves = 0;
};

static void ref_ip(const Bytes &p, size_t patch_size, const Bytes &mem0, RefIp &r)
{
    size_t o = 0;
    int64_t v[5];
    r.mem = mem0;
    if (p.empty()) { r.res = -DETOOLS_SHORT_HEADER; return; }
    uint8_t b = p[o++];
    if (((b >> 4) & 7) != 1) { r.res = -DETOOLS_BAD_PATCH_TYPE; return; }
    for (int i = 0; i < 5; i++) {
        int c = ref_usize(p.data(), p.size(), o, 6, v[i], nullptr);
        if (c) { r.res = (c == 1 ? -DETOOLS_NOT_ENOUGH_PATCH_DATA : c); return; }
    }
    r.memory = v[0]; r.seg = v[1]; r.shift = v[2]; r.from = v[3]; r.to = v[4];
    r.known_header = true;
    Stream s;
    int c = ref_stream(b & 15, p.data() + o, p.size() - o, patch_size - o, s, 1 << 18);
    if (c) { r.res = c; return; }
    r.capped = s.capped();
    size_t q = 0;
    int64_t x, pos = 0, seg_start, seg_len, from;
    if (r.to == 0) goto done;
    if (r.seg == 0 || r.memory % r.seg || r.shift % r.seg || r.shift > r.memory || r.to > r.memory) {
        r.res = -DETOOLS_CORRUPT_PATCH;
        return;
    }
    r.header = true;
    if (r.memory > (int64_t)mem0.size()) return; // too big for this harness
    if (r.shift > 0) {
        int64_t n = std::min(r.from, r.memory - r.shift);
        int64_t segs = (n + r.seg - 1) / r.seg;
        // The old image, in whole segments, moved up.
        for (int64_t i = segs - 1; i >= 0; i--) {
            for (int64_t k = 0; k < r.seg; k++) r.mem[(size_t)((i) * r.seg + r.shift + k)] = r.mem[(size_t)(i * r.seg + k)];
            r.ops.push_back({'e', i * r.seg + r.shift, r.seg});
            r.ops.push_back({'r', i * r.seg, r.seg});
            r.ops.push_back({'w', i * r.seg + r.shift, r.seg});
            r.ops.push_back({'s', 0, 0});
            r.after.push_back(r.mem);
            r.moves++;
        }
    }
    for (seg_start = 0;; seg_start += r.seg) {
        c = ref_size(s, q, x);
        if (c) goto fail;
        if (x > 0) { r.res = -DETOOLS_NOT_IMPLEMENTED; return; }
        seg_len = std::min(r.seg, r.to - seg_start);
        from = std::max(seg_start + r.seg, r.shift);
        pos = seg_start;
        for (int64_t k = 0; k < seg_len; k++) r.mem[(size_t)(seg_start + k)] = 0xff;
        r.ops.push_back({'e', seg_start, seg_len});
        while (true) {
            for (int k = 0; k < 2; k++) {
                c = ref_size(s, q, x);
                if (c) goto fail;
                if (x < 0 || pos + x > seg_start + seg_len) { r.res = -DETOOLS_CORRUPT_PATCH; return; }
                if (k == 0 && x > 0 && from < seg_start + seg_len && from + x > seg_start) r.idempotent = false;
                for (int64_t i = 0; i < x; i++) {
                    if (q >= s.d.size()) { c = s.end; goto fail; }
                    uint8_t y = s.d[q++];
                    if (k == 0) {
                        if (from < 0 || from >= r.memory) { r.res = -DETOOLS_CORRUPT_PATCH; return; }
                        y = (uint8_t)(y + r.mem[(size_t)from++]);
                    }
                    r.mem[(size_t)pos++] = y;
                }
                if (x > 0 && k == 0) r.ops.push_back({'r', from - x, x});
                if (x > 0) r.ops.push_back({'w', pos - x, x});
            }
            c = ref_size(s, q, x);
            if (c) goto fail;
            if (pos == r.to) goto done;
            if (pos == seg_start + seg_len) break;
            from += x;
            if (from > INT32_MAX || from < INT32_MIN) { r.res = -DETOOLS_CORRUPT_PATCH; return; }
        }
        r.ops.push_back({'s', 0, 0});
        r.after.push_back(r.mem);
    }
done:
    if ((b & 15) == 0 && (s.d.size() != q || p.size() < patch_size)) { r.res = -DETOOLS_CORRUPT_PATCH; return; }
    if ((b & 15) == 4 && q > 0 && s.open[q - 1]) { r.res = -DETOOLS_CORRUPT_PATCH; return; }
    r.trailing = ((b & 15) == 1 && (s.end < 0 || s.extra || q < s.d.size() || r.to == 0));
    r.ok = true;
    r.res = (int)r.to;
    return;
fail:
    r.res = (c == 1 ? -DETOOLS_NOT_ENOUGH_PATCH_DATA : c);
}

struct Ip {
    Bytes mem;
    const RefIp *ref = nullptr;
    std::vector<Op> ops;      // merged reads and writes
    int64_t erased = -1, erased_end = -1, next = -1;
    long segs = 0;            // segments erased by the patch
    int stored = 0;
    bool has_set = false, has_get = false;
    std::vector<int> sets;
    bool allow[2] = {true, true};
    long calls = 0, fail_at = -1;
    int fail_res = -1;
    char fail_kind = 0;
    bool failed = false, finalized = false;
    long after = 0;
    const Bytes *patch = nullptr;
    size_t patch_at = 0;
};

static bool ip_call(Ip *s, char kind)
{
    if (s->failed || s->finalized) s->after++;
    if (s->calls++ == s->fail_at) { s->failed = true; s->fail_kind = kind; return false; }
    if (s->calls > 4000000) viol("C17", "in-place: too many callbacks");
    return true;
}

static void ip_range(Ip *s, const char *what, uintptr_t addr, size_t n)
{
    if (!s->ref->known_header) viol("C08", "%s before the header is known", what);
    if (!s->ref->header && s->ref->res < 0) viol("C08", "%s although the header is refused", what);
    if (addr > (uintptr_t)s->ref->memory || n > (size_t)s->ref->memory - addr)
        viol("C08", "%s of %zu bytes at %zu, memory is %ld", what, n, (size_t)addr, (long)s->ref->memory);
}

static void ip_op(Ip *s, char kind, uintptr_t addr, size_t n)
{
    if (n == 0 && kind != 'e') return;
    // reads and writes of one block alternate: merge each kind with the
    // last one of its kind if it goes on there
    for (size_t k = s->ops.size(); k-- > 0 && k + 3 > s->ops.size();) {
        Op &l = s->ops[k];
        if (l.kind == 'e' || l.kind == 's') break;
        if (l.kind == kind) {
            if (l.addr + l.size == (int64_t)addr) { l.size += (int64_t)n; return; }
            break;
        }
    }
    s->ops.push_back({kind, (int64_t)addr, (int64_t)n});
}

static int ip_read(void *a, void *b, uintptr_t addr, size_t n)
{
    Ip *s = (Ip *)a;
    bool lib = g_lib; g_lib = false;
    memset(b, 0xee, n);
    int res = 0;
    ip_range(s, "read", addr, n);
    if (!ip_call(s, 'r')) res = s->fail_res;
    else if (n > 0) { memcpy(b, &s->mem[addr], n); ip_op(s, 'r', addr, n); }
    g_lib = lib;
    return res;
}
static int ip_write(void *a, uintptr_t addr, void *b, size_t n)
{
    Ip *s = (Ip *)a;
    bool lib = g_lib; g_lib = false;
    int res = 0;
    ip_range(s, "write", addr, n);
    if (n > 0 && ((int64_t)addr < s->erased || (int64_t)(addr + n) > s->erased_end))
        viol("C08", "write of %zu bytes at %zu outside the segment just erased (%ld to %ld)", n, (size_t)addr, (long)s->erased, (long)s->erased_end);
    if (n > 0 && (int64_t)addr != s->next) viol("C07", "write at %zu, segment continues at %ld", (size_t)addr, (long)s->next);
    if (!ip_call(s, 'w')) { if (n > 1) memcpy(&s->mem[addr], b, n / 2); res = s->fail_res; }
    else if (n > 0) { memcpy(&s->mem[addr], b, n); s->next += (int64_t)n; ip_op(s, 'w', addr, n); }
    g_lib = lib;
    return res;
}
static int ip_erase(void *a, uintptr_t addr, size_t n)
{
    Ip *s = (Ip *)a;
    bool lib = g_lib; g_lib = false;
    int res = 0;
    ip_range(s, "erase", addr, n);
    if (!ip_call(s, 'e')) { memset(&s->mem[addr], 0xff, n / 2); res = s->fail_res; }
    else {
        memset(&s->mem[addr], 0xff, n);
        s->erased = s->next = (int64_t)addr;
        s->erased_end = (int64_t)(addr + n);
        ip_op(s, 'e', addr, n);
    }
    g_lib = lib;
    return res;
}
static int ip_set(void *a, int step)
{
    Ip *s = (Ip *)a;
    bool lib = g_lib; g_lib = false;
    int res = 0;
    if (!ip_call(s, 'S')) res = s->fail_res;
    else {
        int last = s->sets.empty() ? s->stored : s->sets.back();
        if (step != 0 && s->has_get && step <= s->stored) viol("C09", "step %d stored although %d is completed", step, s->stored);
        if (step != 0 && step <= last && !s->sets.empty()) viol("C09", "step %d stored after %d", step, last);
        if (!s->sets.empty() && last == 0) viol("C09", "step %d stored after completion", step);
        if (step != 0 && (step < 0 || step > (int)s->ref->after.size())) viol("C09", "step %d stored, only %zu steps", step, s->ref->after.size());
        if (step != 0 && s->ref->idempotent && s->mem != s->ref->after[(size_t)step - 1]) {
            size_t i = 0;
            while (s->mem[i] == s->ref->after[(size_t)step - 1][i]) i++;
            viol(step <= s->ref->moves ? "C07" : "C09", "step %d stored, memory at %zu is not as it must be", step, i);
        }
        if (step == 0 && !(s->ref->ok || s->ref->res == -DETOOLS_CORRUPT_PATCH)) viol("C09", "zero stored although not complete");
        s->sets.push_back(step);
        s->stored = step;
        s->ops.push_back({'s', 0, 0});
    }
    g_lib = lib;
    return res;
}
static int ip_get(void *a, int *step)
{
    Ip *s = (Ip *)a;
    bool lib = g_lib; g_lib = false;
    int res = 0;
    if (!ip_call(s, 'G')) res = s->fail_res;
    else *step = s->stored;
    g_lib = lib;
    return res;
}
static int ip_patch(void *a, uint8_t *b, size_t n)
{
    Ip *s = (Ip *)a;
    bool lib = g_lib; g_lib = false;
    int res = 0;
    if (!ip_call(s, 'p')) res = s->fail_res;
    else {
        if (s->patch_at + n > s->patch->size()) viol("C02", "callbacks reads beyond the patch");
        memcpy(b, s->patch->data() + s->patch_at, n);
        s->patch_at += n;
    }
    g_lib = lib;
    return res;
}

static int ip_run(Ip &s, const Bytes &p, size_t patch_size, const std::vector<size_t> &c)
{
    detools_apply_patch_in_place_t a;
    memset(&a, g_fill, sizeof a);
    smear(g_fill);
    detools_apply_patch_in_place_init(&a, ip_read, ip_write, ip_erase, s.has_set ? ip_set : nullptr,
                                      s.has_get ? ip_get : nullptr, patch_size, &s);
    size_t at = 0;
    int pres = 0, res;
    for (size_t m : c) {
        Exact e(p.data() + at, m);
        bool failed = s.failed;
        { Lib l; res = detools_apply_patch_in_place_process(&a, e.p, m); }
        at += m;
        if (s.failed && !failed && res >= 0) viol("C05", "in-place: %c callback failed but process returned %d", s.fail_kind, res);
        if (pres < 0 && m > 0 && res >= 0) viol("C05", "in-place: process returned %d after %d", res, pres);
        if (res > 0) viol("C05", "in-place: process returned %d", res);
        if (res < 0 && pres == 0) pres = res;
    }
    { Lib l; res = detools_apply_patch_in_place_finalize(&a); }
    s.finalized = true;
    if (pres < 0 && res >= 0) viol("C05", "in-place: finalize returns %d after process failed with %d", res, pres);
    if (s.failed && res >= 0) viol("C05", "in-place: finalize returns %d although a callback failed", res);
    if (s.after) viol("C05", "in-place: %ld callbacks after a callback had failed", s.after);
    leaks("in-place");
    return pres < 0 ? pres : res;
}

static bool same_ops(const std::vector<Op> &a, size_t i, const std::vector<Op> &b, size_t j, bool prefix)
{
    for (; i < a.size() && j < b.size(); i++, j++)
        if (a[i].kind != b[j].kind || a[i].addr != b[j].addr || a[i].size != b[j].size) return false;
    return prefix ? j == b.size() : (i == a.size() && j == b.size());
}

// a with markers only for steps stored; adjacent operations merged
static std::vector<Op> merged(const std::vector<Op> &x, bool markers)
{
    Ip t;
    for (const Op &o : x) {
        if (o.kind == 's') { if (markers) t.ops.push_back(o); }
        else ip_op(&t, o.kind, (uintptr_t)o.addr, (size_t)o.size);
    }
    return t.ops;
}

static void ip_case(Rng &r)
{
    Bytes d, p;
    bool bad = r.one(3);
    int comp = r.one(2) && g_comp < 0 ? 0 : pick_comp(r);
    int64_t seg = r.one(4) ? r.range(1, 300) : r.range(1, 24);
    int64_t memory = seg * r.range(1, 12);
    int64_t shift = seg * r.range(0, (int)(memory / seg));
    int64_t from_size = r.one(5) ? r.range(0, (int)memory + 20) : r.range(0, (int)(memory - shift));
    if (r.one(3)) from_size = from_size / seg * seg;
    int64_t to = r.one(15) ? 0 : r.range(1, (int)memory);
    int64_t pos = 0, start = 0;
    int style = r.range(0, 3);
    uint8_t prev = 0;
    bool tame = r.one(2); // no read of the segment being written
    while (pos < to) {
        put_size(d, bad && r.one(30) ? 2 : 0, r);
        int64_t len = std::min(seg, to - start);
        int64_t from = std::max(start + seg, shift);
        while (pos < start + len) {
            int64_t room = start + len - pos;
            int64_t n = r.one(3) ? 0 : std::min<int64_t>(room, block_size(r));
            if (from < 0) n = 0;
            n = std::min(n, std::max<int64_t>(0, memory - from));
            if (tame && from < start + seg) n = 0;
            if (bad && r.one(25)) n = std::min<int64_t>(room, n + 1);
            int64_t shown = n;
            if (bad && r.one(25)) shown = r.one(2) ? -n - 1 : room + r.range(1, 50);
            put_size(d, shown, r);
            for (int64_t i = 0; i < n; i++) d.push_back(prev = data_byte(r, style, prev));
            pos += n; from += n; room -= n;
            int64_t m = r.one(3) ? 0 : std::min<int64_t>(room, r.one(3) ? room : block_size(r));
            shown = m;
            if (bad && r.one(25)) shown = r.one(2) ? -m - 1 : room + r.range(1, 50);
            put_size(d, shown, r);
            for (int64_t i = 0; i < m; i++) d.push_back(prev = data_byte(r, style, prev));
            pos += m;
            int64_t adj = r.range(0, (int)memory) - from;
            if (r.one(2)) adj = 0;
            if (bad && r.one(20)) adj = r.one(2) ? 100000000 : -100000000;
            put_size(d, adj, r);
            from += adj;
        }
        start += seg;
    }
    p.push_back((uint8_t)(0x10 | comp));
    int64_t h[5] = {memory, seg, shift, from_size, to};
    if (bad && r.one(3)) {
        int k = r.range(0, 4);
        h[k] = r.one(3) ? 0 : std::max<int64_t>(0, r.one(2) ? h[k] + r.range(-2, 2) : r.range(0, 2000));
    }
    for (int i = 0; i < 5; i++) put_size(p, h[i], r);
    Bytes e = (to == 0 && r.one(2)) ? Bytes() : encode(comp, d, r);
    p.insert(p.end(), e.begin(), e.end());
    if (bad && r.one(3)) mutate(p, r);
    size_t patch_size = p.size();
    g_fill = (uint8_t)(r.one(2) ? 0 : r.one(2) ? 0xff : r.next());
    Bytes mem(8192);
    for (auto &x : mem) x = (uint8_t)r.next();
    g_case = "in-place patch " + hex(p);
    RefIp ref;
    ref_ip(p, patch_size, mem, ref);
    if (ref.capped || (ref.header && ref.memory > (int64_t)mem.size())) return;
    comp = p.empty() ? 0 : p[0] & 15;

    std::vector<size_t> c;
    Ip first;
    int first_res = 0;
    bool set = !r.one(3), get = !r.one(3);
    for (int pass = 0; pass < 2; pass++) {
        Ip s;
        s.mem = mem;
        s.ref = &ref;
        s.has_set = set; s.has_get = get;
        if (pass) chunks(r, p.size(), c); else c.assign(1, p.size());
        int res = ip_run(s, p, patch_size, c);
        if (ref.ok && !ref.trailing) {
            if (res < 0) viol(pass ? "C02" : "C07", "well-formed in-place patch fails with %d", res);
            if (res != (int)ref.to) viol("C04", "in-place: returned %d for an image of %ld bytes", res, (long)ref.to);
            if (ref.idempotent && s.mem != ref.mem) {
                size_t i = 0;
                while (s.mem[i] == ref.mem[i]) i++;
                viol(pass ? "C02" : "C07", "memory at %zu is %02x instead of %02x", i, s.mem[i], ref.mem[i]);
            }
            if (ref.to > 0 && set && (s.sets.empty() || s.sets.back() != 0)) viol("C09", "zero is not stored when complete");
            if (set) {
                size_t n = s.sets.size() - (ref.to > 0);
                if (n != ref.after.size()) viol("C09", "%zu steps stored of %zu", n, ref.after.size());
                for (size_t i = 0; i < n; i++) if (s.sets[i] != (int)i + 1) viol("C09", "step %d stored instead of %zu", s.sets[i], i + 1);
            }
            if (!same_ops(merged(s.ops, false), 0, merged(ref.ops, false), 0, false)) viol("C07", "other memory operations than the patch prescribes");
        }
        if (!ref.ok && res >= 0) viol("C04", "in-place patch that must fail with %d gives %d", ref.res, res);
        if (!ref.ok && comp != 1 && res != ref.res) {
            const char *prop = ref.res == -DETOOLS_CORRUPT_PATCH_OVERFLOW ? "C13"
                : (ref.res == -DETOOLS_BAD_COMPRESSION || ref.res == -DETOOLS_BAD_PATCH_TYPE) ? "C18"
                : pass ? "C02" : "C04";
            viol(prop, "in-place: error %d instead of %d", res, ref.res);
        }
        if (!ref.header && s.calls > (long)(ref.ok && set)) viol(ref.res == -DETOOLS_BAD_COMPRESSION || ref.res == -DETOOLS_BAD_PATCH_TYPE ? "C18" : "C08", "callbacks although nothing is to be done");
        if (pass == 0) { first = s; first_res = res; }
        else if (res != first_res && !ref.trailing && !(comp == 1 && res < 0 && first_res < 0)) viol("C02", "in-place: chunked gives %d, in one piece %d", res, first_res);
    }
    if (!ref.header) return;
    // Interruption and resumption.
    {
        Ip s;
        s.mem = mem;
        s.ref = &ref;
        s.has_set = s.has_get = true;
        chunks(r, p.size(), c);
        s.fail_at = r.range(0, (int)std::min<long>(first.calls * 2 + 1, 400));
        s.fail_res = r.one(3) ? r.range(1, 3) : -r.range(1, 30);
        int res = ip_run(s, p, patch_size, c);
        if (s.failed) {
            char k = s.fail_kind;
            if (res >= 0) viol("C05", "in-place: %c callback failed, result %d", k, res);
            int restarts = 0;
            while (ref.ok && !ref.trailing && (s.sets.empty() || s.sets.back() != 0)) {
                Ip t;
                t.mem = s.mem;
                t.ref = &ref;
                t.has_set = t.has_get = true;
                t.stored = s.stored;
                if (restarts < 2 && r.one(2)) { t.fail_at = r.range(0, 60); t.fail_res = -3; }
                chunks(r, p.size(), c);
                int from_step = s.stored;
                res = ip_run(t, p, patch_size, c);
                // only what follows the stored step is done
                size_t i = 0, steps = 0;
                while (steps < (size_t)from_step && i < ref.ops.size()) if (ref.ops[i++].kind == 's') steps++;
                std::vector<Op> tail(ref.ops.begin() + (long)i, ref.ops.end());
                std::vector<Op> did = merged(t.ops, false), want = merged(tail, false);
                if (!t.failed) {
                    if (!same_ops(did, 0, want, 0, false)) viol("C09", "resumed after step %d: other memory operations than an uninterrupted run", from_step);
                    if (res != (int)ref.to) viol("C09", "resumed after step %d: result %d", from_step, res);
                    if (ref.idempotent && t.mem != ref.mem) viol("C09", "resumed after step %d: memory differs from an uninterrupted run", from_step);
                } else {
                    for (size_t j = 0; j < did.size(); j++)
                        if (j >= want.size() || did[j].kind != want[j].kind || did[j].addr != want[j].addr)
                            viol("C09", "resumed after step %d: other memory operations than an uninterrupted run", from_step);
                }
                s = t;
                restarts++;
                if (!t.failed) break;
            }
        }
    }
    // Callback interface.
    if (!ref.trailing) {
        Ip s;
        s.mem = mem;
        s.ref = &ref;
        s.has_set = set; s.has_get = get;
        s.patch = &p;
        if (r.one(2)) { s.fail_at = r.range(0, 60); s.fail_res = r.one(3) ? r.range(1, 3) : -r.range(1, 30); }
        int res;
        smear(g_fill);
        { Lib l; res = detools_apply_patch_in_place_callbacks(ip_read, ip_write, ip_erase, set ? ip_set : nullptr,
                                                              get ? ip_get : nullptr, ip_patch, p.size(), &s); }
        leaks("in-place callbacks");
        if (s.failed) {
            if (res >= 0) viol("C05", "in-place: %c callback failed, callbacks interface returns %d", s.fail_kind, res);
            if (s.fail_kind == 'p' && res != -DETOOLS_IO_FAILED) viol("C05", "patch read failed, result %d", res);
            if (s.after && s.fail_kind != 'p') viol("C05", "in-place: callbacks after a callback had failed");
        } else {
            if (res != first_res && !(comp == 1 && res < 0 && first_res < 0)) viol("C02", "in-place callbacks interface gives %d, process and finalize %d", res, first_res);
            if (ref.ok && ref.idempotent && s.mem != ref.mem) viol("C07", "in-place callbacks interface leaves other memory");
        }
    }
}
