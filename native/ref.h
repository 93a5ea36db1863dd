// Reference decoders, written from the format description.
#ifndef REF_H
#define REF_H
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <cstdlib>
#include <lzma.h>
extern "C" {
#include "detools.h"
}
typedef std::vector<uint8_t> Bytes;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
    bool one(int n) { return next() % n == 0; }
};

// Status after the last decompressed byte: 1 input ends, negative error.
struct Stream {
    Bytes d;
    std::vector<uint8_t> open;   // a back reference goes on after this byte
    int end = 1;
    bool lzma = false;
    bool capped() const { return d.size() >= (1u << 18); }
    bool extra = false;          // input after the end of the lzma stream
};

static void ref_none(const uint8_t *p, size_t n, size_t announced, Stream &s)
{
    size_t m = std::min(n, announced);
    s.d.assign(p, p + m);
    s.end = (n >= announced ? -DETOOLS_CORRUPT_PATCH : 1);
}

// Unsigned, seven bits per byte. 0 ok, 1 cut, negative refused.
static int ref_usize(const uint8_t *p, size_t n, size_t &o, int first_bits, int64_t &v, bool *neg)
{
    int shift = 0, count = 0;
    v = 0;
    while (true) {
        if (o >= n) return 1;
        uint8_t b = p[o++];
        if (count == 4) return -DETOOLS_CORRUPT_PATCH_OVERFLOW;
        if (count == 0) {
            if (neg) *neg = (first_bits == 6 && (b & 0x40));
            v = b & ((1 << first_bits) - 1);
            shift = first_bits;
        } else {
            v += (int64_t)(b & 0x7f) << shift;
            shift += 7;
        }
        count++;
        if (!(b & 0x80)) return 0;
    }
}

static void ref_crle(const uint8_t *p, size_t n, Stream &s, size_t limit)
{
    size_t o = 0;
    int64_t v;
    while (s.d.size() < limit) {
        if (o >= n) { s.end = 1; return; }
        uint8_t kind = p[o++];
        if (kind > 1) { s.end = -DETOOLS_CORRUPT_PATCH_CRLE_KIND; return; }
        int r = ref_usize(p, n, o, 7, v, nullptr);
        if (r) { s.end = r; return; }
        if (kind == 0) {
            size_t m = std::min<size_t>((size_t)v, n - o);
            s.d.insert(s.d.end(), p + o, p + o + m);
            o += m;
            if (m < (size_t)v) { s.end = 1; return; }
        } else {
            if (o >= n) { s.end = 1; return; }
            s.d.insert(s.d.end(), std::min<size_t>((size_t)v, limit + 1), p[o]);
            o++;
        }
    }
}

struct Bits {
    const uint8_t *p; size_t n; size_t pos;
    int get(int count) {
        if (pos + count > n * 8) return -1;
        int v = 0;
        for (int i = 0; i < count; i++, pos++)
            v = v * 2 + ((p[pos / 8] >> (7 - pos % 8)) & 1);
        return v;
    }
};

static void ref_heatshrink(const uint8_t *p, size_t n, Stream &s, size_t limit)
{
    s.end = 1;
    if (n == 0) return;
    if ((p[0] >> 4) + 4 != 8 || (p[0] & 15) + 3 != 7) { s.end = -DETOOLS_HEATSHRINK_HEADER; return; }
    Bits b{p + 1, n - 1, 0};
    while (s.d.size() < limit) {
        int tag = b.get(1);
        if (tag < 0) return;
        if (tag == 1) {
            int v = b.get(8);
            if (v < 0) return;
            s.d.push_back((uint8_t)v);
            s.open.push_back(0);
        } else {
            int dist = b.get(8);
            if (dist < 0) return;
            int cnt = b.get(7);
            if (cnt < 0) return;
            dist++;
            cnt++;
            for (int i = 0; i < cnt; i++) {
                s.d.push_back(s.d.size() >= (size_t)dist ? s.d[s.d.size() - dist] : 0);
                s.open.push_back(i < cnt - 1);
            }
        }
    }
}

static void ref_lzma(const uint8_t *p, size_t n, Stream &s, size_t limit)
{
    lzma_stream st = LZMA_STREAM_INIT;
    s.lzma = true;
    s.d.resize(limit);
    if (lzma_alone_decoder(&st, UINT64_MAX) != LZMA_OK) { s.d.clear(); s.end = -DETOOLS_LZMA_INIT; return; }
    st.next_in = p; st.avail_in = n; st.next_out = s.d.data(); st.avail_out = limit;
    lzma_ret r = LZMA_OK;
    while (r == LZMA_OK && st.avail_in > 0 && st.avail_out > 0) r = lzma_code(&st, LZMA_RUN);
    s.d.resize(limit - st.avail_out);
    s.end = (r == LZMA_OK || r == LZMA_STREAM_END || r == LZMA_BUF_ERROR) ? 1 : -DETOOLS_LZMA_DECODE;
    s.extra = r != LZMA_STREAM_END || st.avail_in > 0;
    lzma_end(&st);
}

static int ref_stream(int compression, const uint8_t *p, size_t n, size_t announced, Stream &s, size_t limit)
{
    switch (compression) {
    case 0: ref_none(p, n, announced, s); return 0;
    case 1: ref_lzma(p, n, s, limit); return 0;
    case 2: ref_crle(p, n, s, limit); return 0;
    case 4: ref_heatshrink(p, n, s, limit); return 0;
    }
    return -DETOOLS_BAD_COMPRESSION;
}

static uint8_t old_byte(uint64_t key, int64_t pos)
{
    uint64_t z = (key + (uint64_t)pos) * 0x9e3779b97f4a7c15ull;
    z ^= z >> 29;
    z *= 0xbf58476d1ce4e5b9ull;
    return (uint8_t)(z >> 56);
}

// A size in the decompressed data.
static int ref_size(const Stream &s, size_t &o, int64_t &v)
{
    bool neg = false;
    int r = ref_usize(s.d.data(), s.d.size(), o, 6, v, &neg);
    if (r == 1) return s.end;
    if (neg) v = -v;
    return r;
}

struct RefSeq {
    Bytes out;          // all bytes determined
    int res = 0;        // of the whole, by finalize
    bool ok = false;    // complete
    bool header = false;
    size_t to_size = 0;
    bool capped = false;   // too much data for this harness
    bool trailing = false; // compressed data after the image: not covered
    size_t used = 0;
};

static void ref_seq(const Bytes &p, size_t patch_size, uint64_t key, RefSeq &r)
{
    size_t o = 0;
    int64_t v;
    if (p.empty()) { r.res = -DETOOLS_SHORT_HEADER; return; }
    uint8_t b = p[o++];
    if ((b >> 4) & 7) { r.res = -DETOOLS_BAD_PATCH_TYPE; return; }
    int c = ref_usize(p.data(), p.size(), o, 6, v, nullptr);
    if (c) { r.res = (c == 1 ? -DETOOLS_NOT_ENOUGH_PATCH_DATA : c); return; }
    r.to_size = (size_t)v;
    r.header = true;
    Stream s;
    c = ref_stream(b & 15, p.data() + o, p.size() - o, patch_size - o, s, 1 << 18);
    if (c) { r.res = c; r.header = false; return; }
    r.capped = s.capped();
    size_t q = 0;
    int64_t from = 0;
    if (v == 0) goto done;
    c = ref_size(s, q, v);
    if (c) goto fail;
    if (v > 0) { r.res = -DETOOLS_NOT_IMPLEMENTED; return; }
    while (true) {
        for (int k = 0; k < 2; k++) {
            c = ref_size(s, q, v);
            if (c) goto fail;
            if (v < 0 || (uint64_t)v + r.out.size() > r.to_size) { r.res = -DETOOLS_CORRUPT_PATCH; return; }
            for (int64_t i = 0; i < v; i++) {
                if (q >= s.d.size()) { c = s.end; goto fail; }
                uint8_t x = s.d[q++];
                if (k == 0) x = (uint8_t)(x + old_byte(key, from++));
                r.out.push_back(x);
            }
        }
        c = ref_size(s, q, v);
        if (c) goto fail;
        from += v;
        if (r.out.size() == r.to_size) break;
    }
done:
    r.used = q;
    if ((b & 15) == 0 && s.d.size() != q) { r.res = -DETOOLS_CORRUPT_PATCH; return; }
    if ((b & 15) == 0 && p.size() < patch_size) { r.res = -DETOOLS_CORRUPT_PATCH; return; }
    if ((b & 15) == 4 && q > 0 && s.open[q - 1]) { r.res = -DETOOLS_CORRUPT_PATCH; return; }
    r.trailing = ((b & 15) == 1 && (s.end < 0 || s.extra || q < s.d.size() || r.to_size == 0));
    r.ok = true;
    r.res = (int)r.to_size;
    return;
fail:
    r.res = (c == 1 ? -DETOOLS_NOT_ENOUGH_PATCH_DATA : c);
}

// Encoders.
static void put_usize(Bytes &b, uint64_t v, int first_bits, bool neg, int pad)
{
    uint8_t x = (uint8_t)(v & ((1u << first_bits) - 1));
    v >>= first_bits;
    if (first_bits == 6 && neg) x |= 0x40;
    while (v > 0 || pad > 0) {
        b.push_back((uint8_t)(x | 0x80));
        x = (uint8_t)(v & 0x7f);
        v >>= 7;
        pad--;
    }
    b.push_back(x);
}

static void put_size(Bytes &b, int64_t v, Rng &r, bool allow_pad = true)
{
    int bytes = 1;
    for (uint64_t m = (uint64_t)(v < 0 ? -v : v) >> 6; m; m >>= 7) bytes++;
    int pad = allow_pad && r.one(12) ? r.range(0, 4 - std::min(bytes, 4)) : 0;
    if (pad > 0) {
        size_t at = b.size();
        put_usize(b, (uint64_t)(v < 0 ? -v : v), 6, v < 0, 0);
        while (pad-- > 0) { b.back() |= 0x80; b.push_back(0); }
        (void)at;
        return;
    }
    put_usize(b, (uint64_t)(v < 0 ? -v : v), 6, v < 0, 0);
}

static Bytes enc_crle(const Bytes &d, Rng &r)
{
    Bytes o;
    size_t i = 0;
    while (i < d.size() || (r.one(8))) {
        if (r.one(10)) { // empty segment
            if (r.one(2)) { o.push_back(0); put_usize(o, 0, 7, false, 0); }
            else { o.push_back(1); put_usize(o, 0, 7, false, 0); o.push_back((uint8_t)r.next()); }
            continue;
        }
        if (i >= d.size()) break;
        size_t run = 1;
        while (i + run < d.size() && d[i + run] == d[i]) run++;
        if ((run > 1 && !r.one(3)) || r.one(6)) {
            run = (size_t)r.range(1, (int)run);
            o.push_back(1); put_usize(o, run, 7, false, 0); o.push_back(d[i]);
            i += run;
        } else {
            size_t m = std::min<size_t>(d.size() - i, (size_t)(r.one(3) ? r.range(1, 300) : r.range(1, 9)));
            o.push_back(0); put_usize(o, m, 7, false, 0);
            o.insert(o.end(), d.begin() + (long)i, d.begin() + (long)(i + m));
            i += m;
        }
    }
    return o;
}

static Bytes enc_heatshrink(const Bytes &d, Rng &r)
{
    Bytes o;
    std::vector<int> bits;
    auto put = [&](int v, int n) { for (int i = n - 1; i >= 0; i--) bits.push_back((v >> i) & 1); };
    o.push_back(0x44);
    size_t i = 0;
    int lazy = r.range(1, 4);
    while (i < d.size()) {
        size_t best = 0; int bd = 0;
        if (!r.one(lazy + 1)) {
            int start = r.range(1, 256);
            for (int k = 0; k < 256; k++) {
                int dist = (start + k) % 256 + 1;
                size_t l = 0;
                while (l < 128 && i + l < d.size()) {
                    uint8_t c = (i + l >= (size_t)dist ? d[i + l - (size_t)dist] : 0);
                    if (c != d[i + l]) break;
                    l++;
                }
                if (l > best) { best = l; bd = dist; }
                if (best > 0 && r.one(24)) break;
            }
        }
        if (best > 0) {
            if (r.one(4)) best = (size_t)r.range(1, (int)best);
            put(0, 1); put(bd - 1, 8); put((int)best - 1, 7);
            i += best;
        } else {
            put(1, 1); put(d[i], 8);
            i++;
        }
    }
    while (bits.size() % 8) bits.push_back(0);
    for (size_t k = 0; k < bits.size(); k += 8) {
        int v = 0;
        for (int j = 0; j < 8; j++) v = v * 2 + bits[k + (size_t)j];
        o.push_back((uint8_t)v);
    }
    return o;
}

static Bytes enc_lzma(const Bytes &d)
{
    lzma_options_lzma opt;
    lzma_lzma_preset(&opt, 0);
    opt.dict_size = 4096;
    lzma_stream st = LZMA_STREAM_INIT;
    Bytes o(d.size() * 2 + 256);
    if (lzma_alone_encoder(&st, &opt) != LZMA_OK) return o;
    st.next_in = d.data(); st.avail_in = d.size();
    st.next_out = o.data(); st.avail_out = o.size();
    if (lzma_code(&st, LZMA_FINISH) != LZMA_STREAM_END) abort();
    o.resize(o.size() - st.avail_out);
    lzma_end(&st);
    return o;
}

static Bytes encode(int compression, const Bytes &d, Rng &r)
{
    switch (compression) {
    case 1: return enc_lzma(d);
    case 2: return enc_crle(d, r);
    case 4: return enc_heatshrink(d, r);
    }
    return d;
}
#endif
