// File interface with faults: files.cpp SEED SECONDS [CASE]. Works in a
// scratch directory it creates and removes.
#include "ref.h"
#include <cstdarg>
#include <csignal>
#include <ctime>
#include <set>
#include <unistd.h>
#include <sys/stat.h>

static std::string g_case;
static long g_index;
static std::string g_dir;

static void cleanup()
{
    for (const char *n : {"from", "patch", "to", "mem"}) unlink((g_dir + "/" + n).c_str());
    rmdir(g_dir.c_str());
}

static void viol(const char *prop, const char *fmt, ...)
{
    char t[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(t, sizeof t, fmt, ap);
    va_end(ap);
    printf("VIOL %s %s\n  case files %ld: %s\n", prop, t, g_index, g_case.c_str());
    fflush(stdout);
    cleanup();
    _exit(1);
}

static std::set<FILE *> g_open;
static std::map<FILE *, std::string> g_name;
static bool g_on;
static long g_calls, g_fail_at = -1;
static bool g_failed;
static std::string g_fail_what;

static bool fault(const char *what)
{
    if (g_calls++ == g_fail_at) { g_failed = true; g_fail_what = what; return true; }
    return false;
}
static void used(FILE *f, const char *what)
{
    if (!g_open.count(f)) viol("C14", "%s on a file that is not open", what);
}
extern "C" {
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fseek(FILE *, long, int);
long __real_ftell(FILE *);
int __real_fflush(FILE *);
FILE *__wrap_fopen(const char *n, const char *m)
{
    if (!g_on) return __real_fopen(n, m);
    if (fault("open")) return nullptr;
    FILE *f = __real_fopen(n, m);
    if (f) { g_open.insert(f); g_name[f] = n; }
    return f;
}
int __wrap_fclose(FILE *f)
{
    if (!g_on) return __real_fclose(f);
    used(f, "close");
    g_open.erase(f);
    bool x = fault("close");
    int r = __real_fclose(f);
    return x ? EOF : r;
}
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f)
{
    if (!g_on) return __real_fread(b, s, n, f);
    used(f, "read");
    if (fault("read")) return 0;
    return __real_fread(b, s, n, f);
}
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    if (!g_on) return __real_fwrite(b, s, n, f);
    used(f, "write");
    if (fault("write")) return 0;
    return __real_fwrite(b, s, n, f);
}
int __wrap_fseek(FILE *f, long o, int w)
{
    if (!g_on) return __real_fseek(f, o, w);
    used(f, "seek");
    if (fault("seek")) return -1;
    return __real_fseek(f, o, w);
}
long __wrap_ftell(FILE *f)
{
    if (!g_on) return __real_ftell(f);
    used(f, "tell");
    if (fault("tell")) return -1;
    return __real_ftell(f);
}
int __wrap_fflush(FILE *f)
{
    if (!g_on || !f) return __real_fflush(f);
    used(f, "flush");
    if (fault("flush")) return EOF;
    return __real_fflush(f);
}
}

static void put_file(const char *n, const Bytes &b)
{
    FILE *f = __real_fopen((g_dir + "/" + n).c_str(), "wb");
    if (!f) _exit(3);
    if (!b.empty()) __real_fwrite(b.data(), 1, b.size(), f);
    __real_fclose(f);
}
static bool get_file(const char *n, Bytes &b)
{
    FILE *f = __real_fopen((g_dir + "/" + n).c_str(), "rb");
    b.clear();
    if (!f) return false;
    uint8_t t[4096];
    size_t k;
    while ((k = __real_fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + k);
    __real_fclose(f);
    return true;
}

static int g_set_fail = 0;
static int step_set(void *, int) { return g_set_fail; }

static void one(Rng &r)
{
    static const int comp[3] = {0, 2, 4};
    Bytes d, p, from, want;
    int c = comp[r.range(0, 2)];
    bool inplace = r.one(2);
    uint64_t key = r.next();
    int64_t flen = r.range(1, 900);
    for (int64_t i = 0; i < flen; i++) from.push_back(old_byte(key, i));
    int missing = r.one(8) ? r.range(0, 2) : -1;
    if (!inplace) {
        int64_t pos = 0;
        int to = 0;
        Bytes body;
        int n = r.range(0, 4);
        for (int i = 0; i < n; i++) {
            int a = r.one(3) ? r.range(0, 300) : r.range(1, 9);
            a = (int)std::min<int64_t>(a, flen - pos);
            int e = r.range(0, 1) ? r.range(1, 700) : 1;
            put_size(body, a, r);
            for (int k = 0; k < a; k++) body.push_back((uint8_t)r.next());
            put_size(body, e, r);
            for (int k = 0; k < e; k++) body.push_back((uint8_t)r.next());
            pos += a;
            int64_t adj = r.range(0, (int)flen) - pos;
            if (r.one(30)) adj = -pos - 1;
            if (i == n - 1 && r.one(2)) adj = 0;
            put_size(body, adj, r);
            pos += adj;
            if (pos < 0) pos = 0;
            to += a + e;
        }
        if (to > 0) put_size(d, 0, r, false);
        d.insert(d.end(), body.begin(), body.end());
        p.push_back((uint8_t)c);
        put_size(p, to, r);
    } else {
        p.push_back((uint8_t)(0x10 | c));
        int64_t seg = r.range(1, 64), mem = seg * r.range(1, 8), shift = seg * r.range(0, (int)(mem / seg));
        int64_t to = r.range(1, (int)mem), start = 0;
        from.resize((size_t)mem);
        for (auto &x : from) x = (uint8_t)r.next();
        put_size(p, mem, r); put_size(p, seg, r); put_size(p, shift, r); put_size(p, mem - shift, r); put_size(p, to, r);
        want = from;
        for (int64_t i = mem - shift - 1; i >= 0; i--) want[(size_t)(i + shift)] = want[(size_t)i];
        while (start < to) {
            int64_t len = std::min(seg, to - start), f = std::max(start + seg, shift);
            int64_t a = f < mem ? std::min<int64_t>(r.range(0, (int)len), mem - f) : 0;
            put_size(d, 0, r);
            put_size(d, a, r);
            Bytes blk;
            for (int64_t i = 0; i < a; i++) { uint8_t x = (uint8_t)r.next(); d.push_back(x); blk.push_back((uint8_t)(x + want[(size_t)(f + i)])); }
            put_size(d, len - a, r);
            for (int64_t i = a; i < len; i++) { uint8_t x = (uint8_t)r.next(); d.push_back(x); blk.push_back(x); }
            put_size(d, 0, r);
            std::copy(blk.begin(), blk.end(), want.begin() + (long)start);
            start += seg;
        }
    }
    Bytes e = encode(c, d, r);
    p.insert(p.end(), e.begin(), e.end());
    bool cut = r.one(8);
    if (cut) p.resize((size_t)r.range(0, (int)p.size() - 1));
    g_case = std::string(inplace ? "in-place" : "sequential");
    put_file("from", from);
    put_file("mem", from);
    put_file("patch", p);
    unlink((g_dir + "/to").c_str());
    std::string f = g_dir + "/from", q = g_dir + "/patch", t = g_dir + "/to", m = g_dir + "/mem";
    if (missing == 0) { f = g_dir + "/no/from"; m = g_dir + "/no/mem"; }
    if (missing == 1) q = g_dir + "/no/patch";
    if (missing == 2) t = g_dir + "/no/to";
    g_fail_at = r.one(3) ? -1 : r.range(0, r.one(2) ? 8 : 40);
    g_calls = 0;
    g_failed = false;
    g_open.clear();
    bool step = inplace && r.one(4);
    g_set_fail = step && r.one(2) ? -1 : 0;
    int res;
    g_on = true;
    if (inplace) res = detools_apply_patch_in_place_filenames(m.c_str(), q.c_str(), step ? step_set : nullptr, nullptr);
    else res = detools_apply_patch_filenames(f.c_str(), q.c_str(), t.c_str());
    g_on = false;
    g_case += " patch of " + std::to_string(p.size()) + " bytes, fault at call " + std::to_string(g_fail_at) + " " + g_fail_what
        + " result " + std::to_string(res);
    if (!g_open.empty()) viol("C14", "%zu files left open", g_open.size());
    if (g_failed && res >= 0) viol("C14", "a failing %s is not reported, result %d", g_fail_what.c_str(), res);
    if (missing >= 0 && !(inplace && missing == 2) && res >= 0) viol("C14", "missing file %d not reported", missing);
    if (p.empty() && res >= 0) viol("C14", "empty patch file succeeds");
    bool healthy = !g_failed && !(missing >= 0 && !(inplace && missing == 2)) && !p.empty();
    if (!inplace) {
        RefSeq ref;
        ref_seq(p, p.size(), key, ref);
        Bytes out;
        if (healthy && cut && !ref.ok && res >= 0) viol("C14", "truncated patch succeeds");
        if (res >= 0) {
            if (!get_file("to", out) || out != ref.out) viol("C14", "success, but the output file is not the image");
            if (res != (int)ref.to_size) viol("C14", "result %d for %zu bytes", res, ref.to_size);
        } else if (healthy && ref.ok && res != -DETOOLS_IO_FAILED) viol("C14", "good patch fails with %d", res);
        else if (healthy && !cut && res == -DETOOLS_IO_FAILED) {
            // only when the patch leaves the old image
            RefSeq x = ref;
            (void)x;
        }
    } else {
        Bytes out;
        if (res >= 0 && !cut) {
            if (!get_file("mem", out) || out.size() != want.size()
                || !std::equal(out.begin(), out.begin() + res, want.begin())) viol("C14", "success, but the memory file is not as it must be");
        }
        if (res < 0 && healthy && !cut && !g_set_fail) viol("C14", "good in-place patch fails with %d", res);
        if (res >= 0 && g_set_fail) viol("C14", "failing step callback not reported");
    }
}

int main(int argc, char **argv)
{
    uint64_t seed = strtoull(argv[1], nullptr, 10);
    double secs = atof(argv[2]);
    long only = argc > 3 ? atol(argv[3]) : -1;
    char tmp[] = "/tmp/vg-files-XXXXXX";
    g_dir = mkdtemp(tmp);
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    long n = 0;
    for (g_index = (only >= 0 ? only : 0);; g_index++) {
        alarm(20);
        Rng r(seed * 77777u + (uint64_t)g_index);
        one(r);
        n++;
        if (only >= 0) break;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > secs) break;
    }
    cleanup();
    printf("DONE files %ld cases\n", n);
    return 0;
}
