// Differential exploration of the public interface against ref.h.
// explore MODE SEED SECONDS [CASE]: prints "VIOL property text" and exits 1.
#include "ref.h"
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <csignal>
#include <unistd.h>

static std::string g_case;
static std::string g_mode;
static long g_index;
static const char *g_tags;   // violations reported, all if null
static long g_other;
static int g_comp = -1;      // compression forced

static std::string hex(const Bytes &b)
{
    std::string s;
    char t[4];
    for (size_t i = 0; i < b.size() && i < 600; i++) { snprintf(t, sizeof t, "%02x", b[i]); s += t; }
    if (b.size() > 600) s += "...(" + std::to_string(b.size()) + " bytes)";
    return s;
}

static void viol(const char *prop, const char *fmt, ...)
{
    char t[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(t, sizeof t, fmt, ap);
    va_end(ap);
    if (g_tags && !strstr(g_tags, prop)) { g_other++; return; }
    printf("VIOL %s %s\n  case %s %ld: %s\n", prop, t, g_mode.c_str(), g_index, g_case.c_str());
    fflush(stdout);
    _exit(1);
}

static const char *g_crash_prop = "C03";
extern "C" void __asan_on_error(void);
static void on_death(void)
{
    printf("VIOL %s memory or arithmetic error (see stderr)\n  case %s %ld: %s\n", g_crash_prop, g_mode.c_str(), g_index, g_case.c_str());
    fflush(stdout);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_alarm(int)
{
    printf("VIOL C17 does not return\n  case %s %ld: %s\n", g_mode.c_str(), g_index, g_case.c_str());
    fflush(stdout);
    _exit(1);
}

// ---- allocation and lzma bookkeeping --------------------------------------
static long g_live, g_alloc_left = -1, g_decoders;
static bool g_alloc_failed;
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
lzma_ret __real_lzma_alone_decoder(lzma_stream *, uint64_t);
void __real_lzma_end(lzma_stream *);
static bool g_lib;
void *__wrap_malloc(size_t n)
{
    if (!g_lib) return __real_malloc(n);
    if (g_alloc_left == 0) { g_alloc_failed = true; return nullptr; }
    if (g_alloc_left > 0) g_alloc_left--;
    g_live++;
    return __real_malloc(n);
}
void __wrap_free(void *p) { if (g_lib && p) g_live--; __real_free(p); }
lzma_ret __wrap_lzma_alone_decoder(lzma_stream *s, uint64_t l)
{
    if (!g_lib) return __real_lzma_alone_decoder(s, l);
    if (g_alloc_left == 0) { g_alloc_failed = true; return LZMA_MEM_ERROR; }
    lzma_ret r = __real_lzma_alone_decoder(s, l);
    if (r == LZMA_OK) g_decoders++;
    return r;
}
void __wrap_lzma_end(lzma_stream *s) { if (g_lib) g_decoders--; __real_lzma_end(s); }
}

// ---- generation -----------------------------------------------------------
static const int COMP[4] = {0, 1, 2, 4};

static int pick_comp(Rng &r)
{
    int c = COMP[r.range(0, 3)];
    return g_comp >= 0 ? g_comp : c;
}

static int block_size(Rng &r)
{
    switch (r.range(0, 9)) {
    case 0: return 0;
    case 1: return r.range(126, 130);
    case 2: return r.range(60, 66);
    case 3: return r.range(254, 258);
    case 4: return r.one(4) ? r.range(300, 1500) : r.range(1, 40);
    default: return r.range(0, 12);
    }
}

static uint8_t data_byte(Rng &r, int style, uint8_t prev)
{
    switch (style) {
    case 0: return (uint8_t)r.next();
    case 1: return r.one(9) ? (uint8_t)r.next() : prev;
    case 2: return 0;
    default: return (uint8_t)(r.next() & 3);
    }
}

static void mutate(Bytes &p, Rng &r)
{
    int n = r.range(1, 3);
    while (n-- > 0 && !p.empty()) {
        size_t i = (size_t)r.range(0, (int)p.size() - 1);
        if (r.one(3)) i = (size_t)r.range(0, (int)std::min<size_t>(p.size() - 1, 12));
        switch (r.range(0, 5)) {
        case 0: p[i] ^= (uint8_t)(1 << r.range(0, 7)); break;
        case 1: p[i] = (uint8_t)r.next(); break;
        case 2: p.resize(i); break;
        case 3: p.insert(p.begin() + (long)i, (uint8_t)r.next()); break;
        case 4: p.erase(p.begin() + (long)i); break;
        case 5: { int k = r.range(1, 9); while (k--) p.push_back((uint8_t)r.next()); } break;
        }
    }
}

// ---- sequential -----------------------------------------------------------
struct Seq {
    uint64_t key;
    int64_t from = 0;
    Bytes out;
    long calls = 0;
    long fail_at = -1;     // fail this call
    bool patch_failed = false;
    int fail_res = -1;
    bool failed = false;
    long after = 0;        // calls after a failure
    int64_t max_out = -1;
    long max_calls = -1;
    const Bytes *patch = nullptr;  // callbacks interface
    size_t patch_at = 0;
    bool finalized = false;
};

static bool seq_call(Seq *s)
{
    if (s->failed || s->finalized) s->after++;
    if (s->max_calls >= 0 && s->calls > s->max_calls) viol("C17", "more callbacks than the patch can need: %ld", s->calls);
    if (s->calls++ == s->fail_at) { s->failed = true; return false; }
    return true;
}
static int cb_read(void *a, uint8_t *b, size_t n)
{
    Seq *s = (Seq *)a;
    bool lib = g_lib; g_lib = false;
    memset(b, 0xee, n);
    int res = 0;
    if (!seq_call(s)) res = s->fail_res;
    else for (size_t i = 0; i < n; i++) b[i] = old_byte(s->key, s->from++);
    g_lib = lib;
    return res;
}
static int cb_seek(void *a, int o)
{
    Seq *s = (Seq *)a;
    bool lib = g_lib; g_lib = false;
    int res = 0;
    if (!seq_call(s)) res = s->fail_res;
    else s->from += o;
    g_lib = lib;
    return res;
}
static int cb_write(void *a, const uint8_t *b, size_t n)
{
    Seq *s = (Seq *)a;
    bool lib = g_lib; g_lib = false;
    int res = 0;
    if (!seq_call(s)) res = s->fail_res;
    else {
        s->out.insert(s->out.end(), b, b + n);
        if (s->max_out >= 0 && (int64_t)s->out.size() > s->max_out)
            viol("C04", "output gets %zu bytes, announced %ld", s->out.size(), (long)s->max_out);
    }
    g_lib = lib;
    return res;
}
static int cb_patch(void *a, uint8_t *b, size_t n)
{
    Seq *s = (Seq *)a;
    bool lib = g_lib; g_lib = false;
    int res = 0;
    if (!seq_call(s)) { res = s->fail_res; s->patch_failed = true; }
    else {
        if (s->patch_at + n > s->patch->size()) viol("C02", "callbacks reads beyond the patch");
        memcpy(b, s->patch->data() + s->patch_at, n);
        s->patch_at += n;
    }
    g_lib = lib;
    return res;
}

struct Outcome { int res = 0; int process_res = 0; Bytes out; };

static uint8_t g_fill;

struct Lib { Lib() { g_lib = true; } ~Lib() { g_lib = false; } };

static void smear(uint8_t v)
{
    volatile uint8_t big[6000];
    for (size_t i = 0; i < sizeof big; i++) big[i] = v;
}

static void chunks(Rng &r, size_t n, std::vector<size_t> &c)
{
    c.clear();
    int style = r.range(0, 4);
    while (n > 0) {
        size_t m = style == 0 ? n : style == 1 ? 1 : style == 2 ? (size_t)r.range(1, 4)
            : style == 3 ? (size_t)r.range(1, 200) : (size_t)r.range(0, 40);
        m = std::min(m, n);
        c.push_back(m);
        n -= m;
    }
}

// A chunk in memory of exactly its size.
struct Exact {
    uint8_t *p;
    Exact(const uint8_t *d, size_t n) { p = new uint8_t[n]; if (n) memcpy(p, d, n); }
    ~Exact() { delete[] p; }
};

static void check_final(Seq &s, int res, detools_apply_patch_t *a, const char *what)
{
    (void)a;
    if (res >= 0 && (s.failed)) viol("C05", "%s returns %d although a callback failed", what, res);
}

static void seq_finish(Seq &s, detools_apply_patch_t *a, Outcome &o)
{
    int res;
    { Lib l; res = detools_apply_patch_finalize(a); }
    s.finalized = true;
    if (o.process_res < 0 && res >= 0) viol("C05", "finalize returns %d after process failed with %d", res, o.process_res);
    check_final(s, res, a, "finalize");
    if (s.failed && o.process_res == 0 && res != -DETOOLS_IO_FAILED) viol("C05", "callback failed in finalize: %d returned", res);
    o.res = (o.process_res < 0 ? o.process_res : res);
    o.out = s.out;
    if (s.after) viol("C05", "%ld callbacks after a callback had failed or the end", s.after);
}

static Outcome seq_run(const Bytes &p, size_t patch_size, Seq &s, const std::vector<size_t> &c)
{
    Outcome o;
    detools_apply_patch_t a;
    memset(&a, g_fill, sizeof a);
    smear(g_fill);
    detools_apply_patch_init(&a, cb_read, cb_seek, patch_size, cb_write, &s);
    size_t at = 0;
    for (size_t m : c) {
        Exact e(p.data() + at, m);
        bool failed = s.failed;
        int res;
        { Lib l; res = detools_apply_patch_process(&a, e.p, m); }
        at += m;
        if (s.failed && !failed && res != -DETOOLS_IO_FAILED) viol("C05", "callback failed but process returned %d", res);
        if (o.process_res < 0 && m > 0 && res >= 0) viol("C05", "process returned %d after %d", res, o.process_res);
        if (res > 0) viol("C05", "process returned %d", res);
        if (res < 0 && o.process_res == 0) o.process_res = res;
    }
    seq_finish(s, &a, o);
    return o;
}

static void leaks(const char *what)
{
    if (g_live != 0) viol("C12", "%s: %ld blocks not released", what, g_live);
    if (g_decoders != 0) viol("C12", "%s: %ld decoders not released exactly once", what, g_decoders);
}

static void gen_seq_raw(Rng &r, Bytes &d, int &to_size, bool bad)
{
    int records = r.one(20) ? 0 : r.range(1, 5);
    int total = 0;
    std::vector<int> sz;
    for (int i = 0; i < records; i++) { sz.push_back(block_size(r)); sz.push_back(block_size(r)); total += sz[(size_t)2 * i] + sz[(size_t)2 * i + 1]; }
    while (records > 0 && sz[(size_t)2 * records - 1] == 0 && sz[(size_t)2 * records - 2] == 0) records--;
    to_size = total;
    if (total == 0) return;
    put_size(d, r.one(30) ? -r.range(0, 5) : bad && r.one(20) ? 3 : 0, r);
    int style = r.range(0, 3);
    uint8_t prev = 0;
    for (int i = 0; i < records; i++) {
        for (int k = 0; k < 2; k++) {
            int n = sz[(size_t)2 * i + k];
            int64_t shown = n;
            if (bad && r.one(12)) shown = r.one(2) ? -(int64_t)n - r.one(2) : r.one(2) ? n + r.range(1, 200) : (int64_t)1 << r.range(10, 40);
            put_size(d, shown, r);
            for (int j = 0; j < n; j++) d.push_back(prev = data_byte(r, style, prev));
        }
        int64_t adj = r.one(4) ? r.range(-100000000, 100000000) : r.range(-70, 70);
        put_size(d, adj, r);
    }
}

static void seq_case(Rng &r)
{
    Bytes d, p;
    int to_size;
    bool bad = r.one(2);
    int comp = pick_comp(r);
    gen_seq_raw(r, d, to_size, bad && r.one(2));
    p.push_back((uint8_t)(comp | (r.one(40) ? r.range(0, 255) : 0) | (r.one(4) ? 0x80 : 0)));
    int shown = to_size;
    if (bad && r.one(6)) shown = std::max(0, to_size + r.range(-3, 3));
    put_size(p, r.one(10) ? -shown : shown, r);
    Bytes e = (to_size == 0 && r.one(2)) ? Bytes() : encode(comp, d, r);
    p.insert(p.end(), e.begin(), e.end());
    if (bad && r.one(2)) mutate(p, r);
    size_t patch_size = p.size();
    if (bad && r.one(8)) patch_size = (size_t)std::max(7, (int)patch_size + r.range(-3, 3));
    uint64_t key = r.next();
    g_fill = (uint8_t)(r.one(2) ? 0 : r.one(2) ? 0xff : r.next());
    g_case = "sequential patch " + hex(p) + " patch_size " + std::to_string(patch_size) + " key " + std::to_string(key);
    RefSeq ref;
    ref_seq(p, patch_size, key, ref);
    if (ref.capped) return;
    comp = p.empty() ? 0 : p[0] & 15;

    long max_calls = 2 * (long)p.size() + 4 * (long)ref.out.size() + 2000;
    if (comp == 1 || comp == 2 || comp == 4) max_calls = 1000000000;
    std::vector<size_t> c;
    std::vector<size_t> whole(1, p.size());
    Outcome first;
    for (int pass = 0; pass < 3; pass++) {
        Seq s;
        s.key = key;
        s.max_out = ref.header ? (int64_t)ref.to_size : 0;
        s.max_calls = max_calls;
        if (pass == 0) c = whole; else chunks(r, p.size(), c);
        Outcome o = seq_run(p, patch_size, s, c);
        leaks("no fault");
        // Output is what the format says, up to where a failure stops it.
        if (o.out.size() > ref.out.size() || !std::equal(o.out.begin(), o.out.end(), ref.out.begin())) {
            size_t i = 0;
            while (i < o.out.size() && i < ref.out.size() && o.out[i] == ref.out[i]) i++;
            const char *prop = pass && first.out.size() == ref.out.size() ? "C02" : "C01";
            viol(prop, "output byte %zu is wrong (%zu bytes given, format says %zu)", i, o.out.size(), ref.out.size());
        }
        if (ref.ok && !ref.trailing) {
            if (o.res < 0) viol(pass ? "C02" : "C01", "well-formed patch fails with %d (chunking %d)", o.res, pass);
            if (o.res != (int)ref.to_size) viol("C04", "returned %d for an image of %zu bytes", o.res, ref.to_size);
            if (o.out.size() != ref.to_size) viol("C04", "%zu bytes of %zu delivered", o.out.size(), ref.to_size);
        }
        if (!ref.ok && o.res >= 0) viol("C04", "patch that must fail with %d gives %d", ref.res, o.res);
        if (!ref.ok && comp != 1 && o.res != ref.res
            && !(comp == 0 && patch_size > p.size() && o.res == -DETOOLS_CORRUPT_PATCH)) {
            const char *prop = ref.res == -DETOOLS_CORRUPT_PATCH_OVERFLOW ? "C13"
                : (ref.res == -DETOOLS_BAD_COMPRESSION || ref.res == -DETOOLS_BAD_PATCH_TYPE) ? "C18"
                : ref.res == -DETOOLS_CORRUPT_PATCH_CRLE_KIND ? "C10"
                : ref.res == -DETOOLS_HEATSHRINK_HEADER ? "C11" : pass ? "C02" : "C04";
            viol(prop, "error %d instead of %d (chunking %d)", o.res, ref.res, pass);
        }
        if (pass == 0) first = o;
        else if (comp != 1 || !ref.trailing) {
            if (o.res != first.res && !(comp == 1 && o.res < 0 && first.res < 0)) viol("C02", "chunked gives %d, in one piece %d", o.res, first.res);
            if (o.res >= 0 && o.out != first.out) viol("C02", "chunked gives other output");
        }
        if (pass == 0 && ref.res == -DETOOLS_BAD_COMPRESSION && s.calls) viol("C18", "callbacks before refusal");
        if (pass == 0 && ref.res == -DETOOLS_BAD_PATCH_TYPE && s.calls) viol("C18", "callbacks before refusal");
    }
    // Callback interface.
    if (patch_size == p.size() && !ref.trailing) {
        Seq s;
        s.key = key;
        s.patch = &p;
        s.max_out = ref.header ? (int64_t)ref.to_size : 0;
        if (r.one(3)) { s.fail_at = r.range(0, 40); s.fail_res = r.one(3) ? r.range(1, 9) : -r.range(1, 9); }
        int res;
        smear(g_fill);
        { Lib l; res = detools_apply_patch_callbacks(cb_read, cb_seek, cb_patch, patch_size, cb_write, &s); }
        leaks("callbacks");
        if (s.failed) {
            if (res != -DETOOLS_IO_FAILED) viol("C05", "callback failed but callbacks interface returned %d", res);
            if (s.after && !s.patch_failed) viol("C05", "%ld callbacks after a callback had failed", s.after);
        } else if (res != first.res && !(comp == 1 && res < 0 && first.res < 0)) viol(ref.ok ? "C02" : "C04", "callbacks interface gives %d, process and finalize %d", res, first.res);
        if (s.out.size() > ref.out.size() || !std::equal(s.out.begin(), s.out.end(), ref.out.begin()))
            viol("C02", "callbacks interface gives other output");
        if (res >= 0 && s.out.size() != ref.out.size()) viol("C04", "callbacks interface: %zu bytes of %zu", s.out.size(), ref.out.size());
    }
    // Faults.
    {
        Seq s;
        s.key = key;
        s.max_out = ref.header ? (int64_t)ref.to_size : 0;
        s.fail_at = r.range(0, r.one(2) ? 4 : 40);
        s.fail_res = r.one(2) ? -r.range(1, 40) : r.range(1, 3);
        chunks(r, p.size(), c);
        Outcome o = seq_run(p, patch_size, s, c);
        leaks("failing callback");
        if (s.failed && o.res != -DETOOLS_IO_FAILED) viol("C05", "callback failed, result %d", o.res);
        if (s.out.size() > ref.out.size() || !std::equal(s.out.begin(), s.out.end(), ref.out.begin()))
            viol("C05", "other output when a callback fails");
    }
    if (comp == 1) {
        Seq s;
        s.key = key;
        s.max_out = ref.header ? (int64_t)ref.to_size : 0;
        chunks(r, p.size(), c);
        g_alloc_left = r.range(0, 20);
        g_alloc_failed = false;
        Outcome o = seq_run(p, patch_size, s, c);
        g_alloc_left = -1;
        leaks("failing allocation");
        if (g_alloc_failed && o.res >= 0) viol("C12", "allocation failed, result %d", o.res);
        if (s.out.size() > ref.out.size() || !std::equal(s.out.begin(), s.out.end(), ref.out.begin()))
            viol("C12", "other output when an allocation fails");
    }
}

// ---- dump and restore -----------------------------------------------------
struct Dump : Seq { Bytes state; size_t read_at = 0; bool cut = false; };
static int cb_state_write(void *a, const void *b, size_t n)
{
    Dump *s = (Dump *)a;
    bool lib = g_lib; g_lib = false;
    s->state.insert(s->state.end(), (const uint8_t *)b, (const uint8_t *)b + n);
    g_lib = lib;
    return 0;
}
static int cb_state_read(void *a, void *b, size_t n)
{
    Dump *s = (Dump *)a;
    bool lib = g_lib; g_lib = false;
    int res = 0;
    if (s->read_at + n > s->state.size()) res = -1;
    else { memcpy(b, s->state.data() + s->read_at, n); s->read_at += n; }
    g_lib = lib;
    return res;
}
static int cb_state_fail(void *, const void *, size_t) { return -7; }
static int cb_state_fail2(void *, void *, size_t) { return 7; }

static void dump_case(Rng &r)
{
    Bytes d, p;
    int to_size;
    int comp = pick_comp(r);
    bool bad = r.one(6);
    gen_seq_raw(r, d, to_size, bad);
    p.push_back((uint8_t)comp);
    put_size(p, to_size, r);
    Bytes e = encode(comp, d, r);
    if (to_size == 0 && r.one(2)) e.clear();
    p.insert(p.end(), e.begin(), e.end());
    if (bad && r.one(2)) mutate(p, r);
    uint64_t key = r.next();
    g_fill = (uint8_t)(r.one(2) ? 0 : r.one(2) ? 0xff : r.next());
    RefSeq ref;
    ref_seq(p, p.size(), key, ref);
    if (ref.trailing || ref.capped) return;
    comp = p.empty() ? 0 : p[0] & 15;
    size_t cut = (size_t)r.range(0, (int)p.size());
    if (r.one(3)) cut = (size_t)r.range(0, (int)std::min<size_t>(p.size(), 5));
    g_case = "dump after " + std::to_string(cut) + " bytes of patch " + hex(p) + " key " + std::to_string(key);
    Dump s;
    s.key = key;
    detools_apply_patch_t a, b;
    memset(&a, g_fill, sizeof a);
    smear(g_fill);
    detools_apply_patch_init(&a, cb_read, cb_seek, p.size(), cb_write, &s);
    size_t at = 0;
    int res = 0;
    while (at < cut && res == 0) {
        size_t m = std::min((size_t)r.range(1, 200), cut - at);
        Exact x(p.data() + at, m);
        Lib l;
        res = detools_apply_patch_process(&a, x.p, m);
        at += m;
    }
    if (res == 0 && a.state == detools_apply_patch_state_failed_t) viol("C06", "failed without an error");
    if (res < 0) { Lib l; detools_apply_patch_finalize(&a); }
    if (res < 0) { leaks("dump case"); return; }
    bool started = (a.state != detools_apply_patch_state_init_t);
    size_t to_offset = detools_apply_patch_get_to_offset(&a);
    if (to_offset != s.out.size()) viol("C06", "output offset %zu, %zu bytes written", to_offset, s.out.size());
    if (detools_apply_patch_get_patch_offset(&a) != at) viol("C06", "patch offset %zu, %zu bytes given", detools_apply_patch_get_patch_offset(&a), at);
    if (r.one(10)) {
        Lib l;
        if (detools_apply_patch_dump(&a, cb_state_fail) != -DETOOLS_IO_FAILED) viol("C05", "failing state write not reported by dump");
    }
    { Lib l; res = detools_apply_patch_dump(&a, cb_state_write); }
    int want = (started && comp == 1) ? -DETOOLS_NOT_IMPLEMENTED : 0;
    if (res != want) viol("C06", "dump returns %d instead of %d", res, want);
    { Lib l; detools_apply_patch_finalize(&a); }
    leaks("dump case");
    memset(&a, 0x5a, sizeof a);
    Dump t;
    t.key = key;
    t.state = s.state;
    memset(&b, g_fill ^ 0x33, sizeof b);
    smear((uint8_t)(g_fill ^ 0x33));
    detools_apply_patch_init(&b, cb_read, cb_seek, p.size(), cb_write, &t);
    if (r.one(10)) {
        Lib l;
        if (detools_apply_patch_restore(&b, cb_state_fail2) != -DETOOLS_IO_FAILED) viol("C05", "failing state read not reported by restore");
        detools_apply_patch_init(&b, cb_read, cb_seek, p.size(), cb_write, &t);
    }
    if (r.one(10) && started) {
        t.fail_at = 0; t.fail_res = -3;
        Lib l;
        if (detools_apply_patch_restore(&b, cb_state_read) != -DETOOLS_IO_FAILED) viol("C05", "failing seek not reported by restore");
        g_lib = false;
        t.fail_at = -1; t.failed = false; t.read_at = 0; t.calls = 0;
        memset(&b, g_fill ^ 0x33, sizeof b);
        detools_apply_patch_init(&b, cb_read, cb_seek, p.size(), cb_write, &t);
    }
    { Lib l; res = detools_apply_patch_restore(&b, cb_state_read); }
    if (res != want) viol("C06", "restore returns %d instead of %d", res, want);
    if (res < 0) return;
    size_t base = detools_apply_patch_get_to_offset(&b);
    if (started && base != to_offset) viol("C06", "restored output offset %zu, was %zu", base, to_offset);
    size_t go = detools_apply_patch_get_patch_offset(&b);
    if (started && go != at) viol("C06", "restored patch offset %zu, was %zu", go, at);
    if (go > p.size()) viol("C06", "patch offset beyond the patch");
    // One more dump and restore in the middle, sometimes.
    while (go < p.size() && res == 0) {
        size_t m = std::min((size_t)r.range(1, 200), p.size() - go);
        Exact x(p.data() + go, m);
        Lib l;
        res = detools_apply_patch_process(&b, x.p, m);
        go += m;
    }
    int fin;
    { Lib l; fin = detools_apply_patch_finalize(&b); }
    leaks("restored");
    if (res == 0) res = fin;
    if (res != ref.res && !(comp == 1)) viol("C06", "restored application ends with %d instead of %d", res, ref.res);
    if (base + t.out.size() > ref.out.size() || !std::equal(t.out.begin(), t.out.end(), ref.out.begin() + (long)base))
        viol("C06", "restored application writes other bytes");
    if (res >= 0 && base + t.out.size() != ref.out.size()) viol("C06", "restored application writes %zu bytes, %zu missing", t.out.size(), ref.out.size() - base);
}

#include "inplace.h"

// ---- error texts ----------------------------------------------------------
static void errors_case(Rng &r)
{
    static std::map<std::string, int> seen;
    int e = r.one(3) ? (int)r.next() : r.range(-40, 40);
    if (r.one(50)) e = INT32_MIN;
    g_case = "error " + std::to_string(e);
    const char *s = detools_error_as_string(e);
    if (!s || !*s) viol("C16", "no text");
    int64_t m = e < 0 ? -(int64_t)e : e;
    const char *u = detools_error_as_string(12345);
    bool unknown = strcmp(s, u) == 0;
    if (m >= 1 && m <= 27) {
        if (unknown) viol("C16", "defined code has the unknown-error text");
        if (strcmp(s, detools_error_as_string((int)-m)) || strcmp(s, detools_error_as_string((int)m))) viol("C16", "text differs by sign");
        auto it = seen.find(s);
        if (it != seen.end() && it->second != m) viol("C16", "same text as code %d", it->second);
        seen[s] = (int)m;
    } else if (!unknown) viol("C16", "undefined code has text %s", s);
}

int main(int argc, char **argv)
{
    g_mode = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    double secs = atof(argv[3]);
    g_tags = getenv("VG_TAGS");
    if (getenv("VG_COMP")) g_comp = atoi(getenv("VG_COMP"));
    long only = argc > 4 ? atol(argv[4]) : -1;
    __sanitizer_set_death_callback(on_death);
    signal(SIGALRM, on_alarm);
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    long n = 0;
    for (g_index = (only >= 0 ? only : 0);; g_index++) {
        alarm(20);
        Rng r(seed * 1000003u + (uint64_t)g_index);
        if (g_mode == "seq") seq_case(r);
        else if (g_mode == "dump") { g_crash_prop = "C06"; dump_case(r); }
        else if (g_mode == "inplace") ip_case(r);
        else if (g_mode == "errors") { g_crash_prop = "C16"; errors_case(r); }
        else return 2;
        n++;
        if (only >= 0) break;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > secs) break;
    }
    printf("DONE %s %ld cases\n", argv[1], n);
    return 0;
}
