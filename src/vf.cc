// Implementation of the common pieces (see vf.h). Nothing here comes from the library under test.
#include "vf.h"
#include <sys/mman.h>
#include <unistd.h>
#include <mutex>
#include <lzma.h>

// ================================================================ reporting
int vf_verbose = 0;
static std::mutex g_mu;
static std::map<std::string, u64> g_stat, g_max;
static std::map<std::string, std::set<u64>> g_dist;
static std::string g_info;
static u64 g_case;

u64 mix64(u64 a, u64 b, u64 c) {
    u64 z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull) * 0xD1342543DE82EF95ull ^ (c + 7) * 0xDA942042E4DD58B5ull;
    z ^= z >> 32; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29; z *= 0x94D049BB133111EBull; z ^= z >> 31; return z;
}
void vf_case(u64 idx) { std::lock_guard<std::mutex> l(g_mu); g_case = idx; g_info.clear(); printf("C %llu\n", (unsigned long long)idx); fflush(stdout); }
void vf_stat(const char *k, u64 n) { std::lock_guard<std::mutex> l(g_mu); g_stat[k] += n; }
void vf_max(const char *k, u64 v) { std::lock_guard<std::mutex> l(g_mu); u64 &x = g_max[k]; if (v > x) x = v; }
void vf_distinct(const char *k, u64 h) { std::lock_guard<std::mutex> l(g_mu); g_dist[k].insert(h); }
void vf_ref(const char *key, u64 digest, const char *f, ...) { va_list ap; va_start(ap, f); char b[700]; vsnprintf(b, sizeof b, f, ap); va_end(ap); for (char *c = b; *c; ++c) if (*c == '\n') *c = ' '; std::lock_guard<std::mutex> l(g_mu); printf("R %llu:%s %llx %s\n", (unsigned long long)g_case, key, (unsigned long long)digest, b); }
void vf_flush() {
    std::lock_guard<std::mutex> l(g_mu);
    for (auto &p : g_stat) printf("S %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
    for (auto &p : g_max) printf("M %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
    for (auto &p : g_dist) for (u64 h : p.second) printf("D %s %llx\n", p.first.c_str(), (unsigned long long)h);
    g_stat.clear(); g_max.clear(); g_dist.clear(); fflush(stdout);
}
static std::string vfmt(const char *f, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, f, ap); for (char *c = b; *c; ++c) if (*c == '\n') *c = ' '; return b; }
void vf_sample(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); std::lock_guard<std::mutex> l(g_mu); printf("E %s\n", s.c_str()); }
void vf_info(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); std::lock_guard<std::mutex> l(g_mu);
    if (g_info.size() < 8000) { g_info += s; g_info += "; "; } if (vf_verbose) { fprintf(stderr, "info: %s\n", s.c_str()); fflush(stderr); } }
void vf_viol(const char *key, const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    std::lock_guard<std::mutex> l(g_mu); printf("V %llu %s | %s | %s\n", (unsigned long long)g_case, key, s.c_str(), g_info.c_str()); fflush(stdout); }

// ================================================================ xxh32
u32 ref_xxh32(const u8 *p, size_t n, u32 seed) {
    const u32 P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
    auto rot = [](u32 x, int r) { return (x << r) | (x >> (32 - r)); };
    auto rd = [](const u8 *q) { return (u32)q[0] | (u32)q[1] << 8 | (u32)q[2] << 16 | (u32)q[3] << 24; };
    const u8 *e = p + n; u32 h;
    if (n >= 16) {
        u32 v[4] = { seed + P1 + P2, seed + P2, seed, seed - P1 };
        while (p + 16 <= e) for (int i = 0; i < 4; ++i, p += 4) v[i] = rot(v[i] + rd(p) * P2, 13) * P1;
        h = rot(v[0], 1) + rot(v[1], 7) + rot(v[2], 12) + rot(v[3], 18);
    } else h = seed + P5;
    h += (u32)n;
    for (; p + 4 <= e; p += 4) h = rot(h + rd(p) * P3, 17) * P4;
    for (; p < e; ++p) h = rot(h + *p * P5, 11) * P1;
    h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; h ^= h >> 16; return h;
}

// ================================================================ data generators
static void fill_random(Rng &r, u8 *p, size_t n) { size_t i = 0; for (; i + 8 <= n; i += 8) { u64 x = r.next(); memcpy(p + i, &x, 8); } if (i < n) { u64 x = r.next(); memcpy(p + i, &x, n - i); } }

static void g_text(Rng &r, Bytes &b, size_t n) {
    unsigned nw = (unsigned)r.range(20, 3000); std::vector<std::string> w(nw);
    for (auto &s : w) { size_t l = r.range(1, 11); for (size_t i = 0; i < l; ++i) s += "etaoinshrdlucmfwypvbgkjqxz"[std::min(r.below(26), r.below(26))]; }
    while (b.size() < n) { size_t k = std::min(r.below(nw), r.below(nw)); const std::string &s = w[k]; b.insert(b.end(), s.begin(), s.end());
        b.push_back(r.chance(6) ? '\n' : r.chance(8) ? ',' : ' '); }
}
static void g_lzsynth(Rng &r, Bytes &b, size_t n, size_t maxdist, int litpct) {
    size_t d[4] = { 1, 2, 3, 4 };
    size_t start = b.size();
    while (b.size() < n) {
        size_t have = b.size() - start;
        if (have < 4 || r.chance(litpct)) { size_t k = r.range(1, 6); while (k--) b.push_back((u8)(r.chance(50) ? r.next() : 'a' + r.below(16))); continue; }
        size_t dist;
        if (r.chance(30)) { size_t j = r.below(4); dist = d[j]; std::swap(d[j], d[0]); }
        else { dist = r.logsize(1, std::min(have, maxdist)); d[3] = d[2]; d[2] = d[1]; d[1] = d[0]; d[0] = dist; }
        if (dist > have) dist = have;
        size_t len = r.chance(10) ? r.logsize(1, 2000) : r.chance(20) ? r.pick({ 1, 2, 3, 8, 9, 16, 17, 18, 272, 273, 274 }) : r.range(2, 40);
        for (size_t i = 0; i < len && b.size() < n; ++i) b.push_back(b[b.size() - dist]);
        if (r.chance(20)) b.push_back((u8)r.next());
    }
}
static void g_kind(Rng &r, Bytes &b, size_t n, int kind) {
    size_t o = b.size(), end = o + n;
    switch (kind) {
    case 0: b.resize(end); fill_random(r, b.data() + o, n); break;
    case 1: b.resize(end, (u8)(r.chance(50) ? 0 : r.next())); break;
    case 2: { size_t p = r.chance(50) ? r.range(1, 20) : r.logsize(2, 70000); Bytes pat(p); fill_random(r, pat.data(), p); b.resize(end); for (size_t i = 0; i < n; ++i) b[o + i] = pat[i % p]; break; }
    case 3: g_text(r, b, end); break;
    case 4: { unsigned k = (unsigned)r.range(1, 5); b.resize(end); for (size_t i = 0; i < n; ++i) b[o + i] = (u8)(r.next() & ((1u << k) - 1)); break; }
    case 5: g_lzsynth(r, b, end, (size_t)1 << r.range(4, 27), (int)r.range(2, 60)); break;
    case 6: { size_t rec = r.pick({ 4, 8, 12, 16, 20, 24, 32, 48, 7, 13 }); u64 ctr = r.next(); while (b.size() < end) { for (size_t i = 0; i < rec; ++i) b.push_back((u8)(i < 3 ? ctr >> (8 * i) : i < rec / 2 ? 0x40 + i : (r.chance(15) ? r.next() : 7 * i))); ctr += r.below(5); } break; }
    case 7: { size_t k = r.range(16, 20000); Bytes blk(k); fill_random(r, blk.data(), k); while (b.size() < end) { if (r.chance(60)) { size_t q = r.below(k), l = std::min(k - q, (size_t)r.logsize(1, k)); b.insert(b.end(), blk.begin() + q, blk.begin() + q + l); } else { size_t l = r.logsize(1, 5000), z = b.size(); b.resize(z + l); fill_random(r, b.data() + z, l); } } break; }
    case 8: { u32 v = (u32)r.next(), st = (u32)r.below(300); unsigned w = r.pick({ 2, 4 }); while (b.size() < end) { for (unsigned i = 0; i < w; ++i) b.push_back((u8)(v >> (8 * i))); v += st + (u32)r.below(4); } break; }
    case 9: { // de Bruijn like: counters with all short strings distinct for long
        u32 x = (u32)r.next(); while (b.size() < end) { x = x * 1664525u + 1013904223u; b.push_back((u8)(x >> 24)); if (r.chance(3)) b.push_back((u8)(x >> 16)); } break; }
    case 10: { // nearly incompressible: random with rare short copies
        b.resize(end); fill_random(r, b.data() + o, n); for (size_t i = 64; i + 40 < n; i += r.range(50, 3000)) { size_t l = r.range(3, 24), d = r.range(1, std::min(i, (size_t)60000)); for (size_t j = 0; j < l; ++j) b[o + i + j] = b[o + i + j - d]; } break; }
    case 11: { // machine code like
        while (b.size() < end) { static const u8 op[] = { 0x48, 0x8B, 0x89, 0x0F, 0xE8, 0x85, 0xC0, 0x74, 0x83, 0xEC, 0x55, 0xC3, 0x90, 0x66 }; u8 c = op[std::min(r.below(14), r.below(14))]; b.push_back(c);
            if (c == 0xE8) { u32 t = (u32)r.below(1 << 18); for (int i = 0; i < 4; ++i) b.push_back((u8)(t >> (8 * i))); } else if (c == 0x0F || c == 0x8B) b.push_back((u8)(0xC0 + r.below(64))); } break; }
    case 12: { // long runs separated by single different bytes, run lengths around the encoder's length limits
        while (b.size() < end) { size_t l = r.pick({ 2, 3, 4, 5, 9, 10, 17, 18, 271, 272, 273, 274, 275, 546, 1000, 4000 }); u8 c = (u8)r.below(4); b.insert(b.end(), l, c); if (r.chance(70)) b.push_back((u8)r.next()); } break; }
    case 13: { // far duplicate: random block repeated at a large distance
        size_t k = std::max<size_t>(1, std::min<size_t>(n / 2 + 1, r.logsize(200, 400000))); Bytes blk(k); fill_random(r, blk.data(), k);
        b.insert(b.end(), blk.begin(), blk.end()); size_t gap = n > 2 * k ? n - 2 * k : 0; Bytes g; g_kind(r, g, gap, r.pick({ 0, 3, 4, 1 })); g.resize(gap); b.insert(b.end(), g.begin(), g.end()); b.insert(b.end(), blk.begin(), blk.end()); break; }
    case 14: { // Fibonacci / Thue-Morse strings: pathological repetition for string matching
        if (r.chance(50)) { std::string x = "a", y = "ab"; while (y.size() < n) { std::string z = y + x; x.swap(y); y.swap(z); } b.insert(b.end(), y.begin(), y.begin() + n); }
        else for (size_t i = 0; i < n; ++i) b.push_back((u8)('0' + (__builtin_popcountll(i) & 1)));
        break; }
    default: { // mixed segments
        while (b.size() < end) { size_t l = std::min(end - b.size(), (size_t)r.logsize(1, std::max<size_t>(n / 2, 2))); size_t z = b.size(); g_kind(r, b, l, (int)r.below(15)); if (b.size() > z + l) b.resize(z + l); }
        break; }
    }
    b.resize(end);
}
const int GEN_KINDS = 16;
const char *gen_kind_name(int k) { static const char *n[] = { "random", "constant", "periodic", "text", "lowentropy", "lzsynth", "records", "dupblocks", "deltas", "lcg", "nearincompr", "code", "runs", "fardup", "fibtm", "mixed" }; return k >= 0 && k < 16 ? n[k] : "?"; }
Bytes gen_data(Rng &r, size_t n, int kind) { Bytes b; b.reserve(n + 5000); if (kind < 0) kind = (int)r.below(GEN_KINDS); g_kind(r, b, n, kind); return b; }
size_t gen_size(Rng &r, size_t cap) {
    size_t s;
    switch (r.below(6)) {
    case 0: s = r.below(300); break;
    case 1: { size_t base = r.pick({ 1 << 8, 1 << 12, 1 << 16, 1 << 17, 1 << 18, 0x40000, 1 << 19, 1 << 20, 1 << 21, 3 << 20, 1 << 22, 65535, 64 * 1024 * 3 }); s = base + r.below(9) - 4; break; }
    case 2: case 3: s = r.logsize(1, 200000); break;
    default: s = r.logsize(1, std::max<size_t>(cap, 2)); break;
    }
    return std::min(s, cap);
}
u64 hash_bytes(const u8 *p, size_t n) { u64 h = 0xcbf29ce484222325ull ^ n; size_t i = 0; for (; i + 8 <= n; i += 8) { u64 x; memcpy(&x, p + i, 8); h = (h ^ x) * 0x9FB21C651E98DF25ull; h ^= h >> 32; } for (; i < n; ++i) { h = (h ^ p[i]) * 0x100000001b3ull; } return h ^ (h >> 29); }
std::string hexs(const u8 *p, size_t n, size_t m) { std::string s; char b[4]; for (size_t i = 0; i < n && i < m; ++i) { snprintf(b, 4, "%02x", p[i]); s += b; } if (n > m) s += ".."; return s; }

// ================================================================ reference LZMA2 decoder
// Written from the published LZMA specification; the chunk rules follow the .xz format description.
namespace {
const u32 kTop = 1u << 24;
struct RDec {
    const u8 *in, *end; u32 range, code; bool under;
    bool init(const u8 *p, const u8 *e) { in = p; end = e; under = false; range = 0xFFFFFFFF; code = 0; if (e - p < 5) { under = true; return true; } bool ok = p[0] == 0; for (int i = 1; i < 5; ++i) code = code << 8 | p[i]; in += 5; return ok; }
    void norm() { if (range < kTop) { range <<= 8; if (in < end) code = code << 8 | *in++; else { code <<= 8; under = true; } } }
    unsigned bit(u16 &p) { norm(); u32 b = (range >> 11) * p; if (code < b) { range = b; p += (u16)((2048 - p) >> 5); return 0; } range -= b; code -= b; p -= p >> 5; return 1; }
    u32 direct(int n) { u32 r = 0; while (n--) { norm(); range >>= 1; u32 t = code >= range; if (t) code -= range; r = r << 1 | t; } return r; }
    unsigned tree(u16 *p, int n) { unsigned m = 1; for (int i = 0; i < n; ++i) m = m << 1 | bit(p[m]); return m - (1u << n); }
    unsigned rtree(u16 *p, int n) { unsigned m = 1, s = 0; for (int i = 0; i < n; ++i) { unsigned b = bit(p[m]); m = m << 1 | b; s |= b << i; } return s; }
};
struct LenP { u16 c[2], low[16][8], mid[16][8], high[256]; };
struct Lz {
    u16 isMatch[12][16], isRep[12], isRepG0[12], isRepG1[12], isRepG2[12], isRep0L[12][16];
    u16 posSlot[4][64], spec[115 + 16], align[16], lit[0x300 << 4];
    LenP len, rep; unsigned lc = 0, lp = 0, pb = 0, state = 0; u32 reps[4];
    static void set(u16 *p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = 1024; }
    void reset() { u16 *b = &isMatch[0][0]; set(b, (u16 *)&lc - b); state = 0; reps[0] = reps[1] = reps[2] = reps[3] = 0; }
    bool props(unsigned p) { if (p >= 225) return false; lc = p % 9; p /= 9; lp = p % 5; pb = p / 5; return lc + lp <= 4; }
    unsigned dlen(RDec &d, LenP &l, unsigned ps) { if (!d.bit(l.c[0])) return 2 + d.tree(l.low[ps], 3); if (!d.bit(l.c[1])) return 10 + d.tree(l.mid[ps], 3); return 18 + d.tree(l.high, 8); }
};
}
size_t ref_dict_size(u8 p) { if (p > 40) return 0; if (p == 40) return 0xFFFFFFFFu; return (size_t)(2 | (p & 1)) << (p / 2 + 11); }

std::vector<RefOp> *ref_trace;
RefResult ref_lzma2(const u8 *src, size_t n, size_t dict, size_t out_limit) {
    RefResult R; Lz *z = new Lz; z->reset(); std::vector<u8> &o = R.out; size_t pos = 0, base = 0; bool need_dict = true, need_props = true, need_state = true;
    auto bad = [&](const std::string &w) { R.st = REF_BAD; R.why = w; R.bad_at_out = o.size(); R.consumed = pos; size_t left = pos < n ? n - pos : 0; R.partial = left < 6 || (src[pos] >= 0x80 && left < 7 + ((size_t)src[pos + 3] << 8 | src[pos + 4])); delete z; };
    auto trunc = [&](const std::string &w) { R.st = REF_TRUNC; R.why = w; R.consumed = n; delete z; };
    auto soft = [&](const char *w) { R.soft = true; if (R.soft_why.empty()) R.soft_why = w; };
    for (;;) {
        if (pos >= n) { trunc("control byte"); return R; }
        u8 c = src[pos]; ChunkInfo ci{}; ci.control = c; ci.pos = pos;
        if (c == 0) { R.consumed = pos + 1; R.st = REF_OK; delete z; return R; }
        if (c > 2 && c < 0x80) { bad("control"); return R; }
        if (c == 1 || c >= 0xE0) { need_dict = false; if (c == 1) { need_props = need_state = true; } }
        else if (need_dict) { bad("no dictionary reset"); return R; }
        if (c < 0x80) {
            if (n - pos < 3) { trunc("header"); return R; }
            size_t u = ((size_t)src[pos + 1] << 8 | src[pos + 2]) + 1; ci.head = 3; ci.unpack = ci.pack = u;
            if (c == 1) { base = o.size(); R.dict_resets++; }
            size_t k = std::min(u, n - pos - 3);
            if (o.size() + k > out_limit) { bad("output limit"); return R; }
            o.insert(o.end(), src + pos + 3, src + pos + 3 + k);
            if (k < u) { trunc("raw data"); return R; }
            R.chunks.push_back(ci); R.unc_chunks++; pos += 3 + u; continue;
        }
        unsigned mode = (c >> 5) & 3; bool has = mode >= 2; ci.head = 5 + has; ci.has_props = has;
        if (!has && need_props) { bad("props missing"); return R; }
        if (mode == 0 && need_state) { bad("state reset missing"); return R; }
        if (n - pos < ci.head) { if (has && n - pos == 6) {} trunc("header"); return R; }
        size_t u = ((size_t)(c & 31) << 16 | (size_t)src[pos + 1] << 8 | src[pos + 2]) + 1, pk = ((size_t)src[pos + 3] << 8 | src[pos + 4]) + 1;
        ci.unpack = u; ci.pack = pk;
        if (has) { ci.props = src[pos + 5]; if (!z->props(ci.props)) { bad("props"); return R; } need_props = false; }
        if (mode == 3) { base = o.size(); R.dict_resets++; }
        if (mode >= 1) { z->reset(); need_state = false; }
        if (pk < 5) { bad("pack size"); return R; }
        if (o.size() + u > out_limit) { bad("output limit"); return R; }
        size_t dpos = pos + ci.head, avail = std::min(pk, n - dpos); bool part = avail < pk;
        RDec d; if (!d.init(src + dpos, src + dpos + avail)) { bad("first range coder byte"); return R; }
        if (d.under) { trunc("chunk data"); return R; }
        size_t endo = o.size() + u; unsigned pbm = (1u << z->pb) - 1, lpm = (1u << z->lp) - 1;
        o.reserve(endo);
        while (o.size() < endo) {
            size_t p = o.size() - base; unsigned ps = p & pbm; unsigned &st = z->state; u32 *rp = z->reps; unsigned len; size_t before = o.size();
            if (!d.bit(z->isMatch[st][ps])) {
                unsigned prev = p ? o.back() : 0; u16 *lp = z->lit + (size_t)0x300 * (((p & lpm) << z->lc) + (prev >> (8 - z->lc))); unsigned s = 1;
                if (st >= 7) {
                    if (rp[0] >= p || rp[0] >= dict) { if (d.under && part) { trunc("chunk data"); return R; } bad("literal without match"); return R; }
                    unsigned mb = o[o.size() - rp[0] - 1];
                    do { unsigned b = (mb >> 7) & 1; mb <<= 1; unsigned x = d.bit(lp[((1 + b) << 8) + s]); s = s << 1 | x; if (b != x) break; } while (s < 0x100);
                }
                while (s < 0x100) s = s << 1 | d.bit(lp[s]);
                if (d.under) { if (part) trunc("chunk data"); else bad("input past the chunk"); return R; }
                o.push_back((u8)s); st = st < 4 ? 0 : st < 10 ? st - 3 : st - 6; R.nlit++; continue;
            }
            bool shortrep = false;
            if (d.bit(z->isRep[st])) {
                if (p == 0) { if (d.under && part) { trunc("chunk data"); return R; } bad("rep at start"); return R; }
                if (!d.bit(z->isRepG0[st])) {
                    if (!d.bit(z->isRep0L[st][ps])) shortrep = true;
                } else {
                    u32 x; if (!d.bit(z->isRepG1[st])) x = rp[1]; else { if (!d.bit(z->isRepG2[st])) x = rp[2]; else { x = rp[3]; rp[3] = rp[2]; } rp[2] = rp[1]; }
                    rp[1] = rp[0]; rp[0] = x;
                }
                if (shortrep) { len = 1; st = st < 7 ? 9 : 11; R.nshort++; }
                else { len = z->dlen(d, z->rep, ps); st = st < 7 ? 8 : 11; R.nrep++; }
            } else {
                rp[3] = rp[2]; rp[2] = rp[1]; rp[1] = rp[0]; len = z->dlen(d, z->len, ps); st = st < 7 ? 7 : 10; R.nmatch++;
                unsigned ls = len - 2 > 3 ? 3 : len - 2, slot = d.tree(z->posSlot[ls], 6); u32 x;
                if (slot < 4) x = slot; else { int nb = (int)(slot >> 1) - 1; x = (2 | (slot & 1)) << nb; if (slot < 14) x += d.rtree(z->spec + x - slot, nb); else { x += d.direct(nb - 4) << 4; x += d.rtree(z->align, 4); } }
                rp[0] = x;
            }
            if (d.under) { if (part) trunc("chunk data"); else bad("input past the chunk"); return R; }
            if (rp[0] == 0xFFFFFFFF && !shortrep) { bad("end of payload marker"); return R; }
            if (rp[0] >= p) { bad("distance beyond the data"); return R; }
            if (rp[0] >= dict) { soft("distance beyond the dictionary size"); bad("distance beyond the dictionary size"); return R; }
            size_t dist = (size_t)rp[0] + 1; if (dist > R.max_dist) R.max_dist = dist; if (len > R.max_len) R.max_len = len;
            if (ref_trace) ref_trace->push_back({ o.size(), (unsigned)len, dist });
            size_t k = std::min<size_t>(len, endo - before); for (size_t i = 0; i < k; ++i) o.push_back(o[o.size() - dist]);
            if (k < len) { bad("match past the chunk"); return R; }
        }
        d.norm();
        if (d.under) { if (part) trunc("chunk data"); else bad("input past the chunk"); return R; }
        if (part) { if (d.code != 0) bad("range coder not finished"); else bad("packed size too large"); R.soft = true; if (R.soft_why.empty()) R.soft_why = "truncated and wrong"; return R; }
        if (d.in != d.end) { bad("packed size too large"); return R; }
        if (d.code != 0) { bad("range coder not finished"); return R; }
        R.chunks.push_back(ci); pos = dpos + pk;
    }
}

bool ref_walk(const u8 *src, size_t n) { size_t pos = 0; for (;;) { if (pos >= n) return false; u8 c = src[pos]; if (c == 0) return true; if (c > 2 && c < 0x80) return false; if (n - pos < 6) return false; pos += c < 0x80 ? 4 + ((size_t)src[pos + 1] << 8 | src[pos + 2]) : 5 + (c >= 0xC0) + 1 + ((size_t)src[pos + 3] << 8 | src[pos + 4]); } }

FrameResult ref_frame(const u8 *src, size_t n, size_t out_limit, bool strict_dict) {
    FrameResult F; if (n == 0) { F.st = REF_TRUNC; F.why = "empty"; return F; }
    F.prop = src[0] & 0x3F; F.has_hash = src[0] >> 7;
    size_t d = ref_dict_size(F.prop); if (d == 0) { F.st = REF_BAD; F.why = "dictionary property"; return F; }
    F.r = ref_lzma2(src + 1, n - 1, strict_dict ? d : SIZE_MAX, out_limit); F.st = F.r.st; F.why = F.r.why; F.consumed = 1 + F.r.consumed;
    if (F.st == REF_OK && F.has_hash) {
        if (n - F.consumed < 4) { F.st = REF_TRUNC; F.why = "hash"; return F; }
        const u8 *h = src + F.consumed; F.hash_stored = (u32)h[0] << 24 | (u32)h[1] << 16 | (u32)h[2] << 8 | h[3]; F.hash_actual = ref_xxh32(F.r.out.data(), F.r.out.size());
        F.hash_ok = F.hash_stored == F.hash_actual; F.consumed += 4; if (!F.hash_ok) { F.st = REF_BAD; F.why = "hash mismatch"; }
    }
    return F;
}

int xz_lzma2(const u8 *src, size_t n, u32 dict, Bytes &out, size_t limit, size_t *consumed) {
    lzma_options_lzma o; memset(&o, 0, sizeof o); o.dict_size = std::max<u32>(dict, 4096); lzma_filter f[2] = { { LZMA_FILTER_LZMA2, &o }, { LZMA_VLI_UNKNOWN, nullptr } };
    lzma_stream s = LZMA_STREAM_INIT; if (lzma_raw_decoder(&s, f) != LZMA_OK) return -2;
    out.resize(limit + 1); s.next_in = src; s.avail_in = n; s.next_out = out.data(); s.avail_out = out.size(); lzma_ret r = lzma_code(&s, LZMA_FINISH); if (r == LZMA_OK) r = lzma_code(&s, LZMA_FINISH);
    out.resize(s.total_out); *consumed = s.total_in; lzma_end(&s);
    return r == LZMA_STREAM_END ? 0 : r == LZMA_DATA_ERROR ? 1 : r == LZMA_BUF_ERROR || r == LZMA_OK ? 2 : -2;
}

size_t xz_encode(const u8 *src, size_t n, unsigned preset, u32 dict) {
    lzma_options_lzma o; lzma_lzma_preset(&o, preset); o.dict_size = dict; lzma_filter f[2] = { { LZMA_FILTER_LZMA2, &o }, { LZMA_VLI_UNKNOWN, nullptr } };
    lzma_stream s = LZMA_STREAM_INIT; if (lzma_raw_encoder(&s, f) != LZMA_OK) return 0; Bytes out(n + n / 1000 + 1000); s.next_in = src; s.avail_in = n; s.next_out = out.data(); s.avail_out = out.size(); lzma_ret r = lzma_code(&s, LZMA_FINISH); size_t z = r == LZMA_STREAM_END ? s.total_out : 0; lzma_end(&s); return z;
}
// ================================================================ synthesiser
namespace {
struct REnc { Bytes out; u64 low = 0; u32 range = 0xFFFFFFFF; u8 cache = 0; u64 csz = 1; 
    void shift() { if ((u32)low < 0xFF000000u || (low >> 32)) { u8 c = (u8)(low >> 32); do { out.push_back((u8)(cache + c)); cache = 0xFF; } while (--csz); cache = (u8)(low >> 24); } csz++; low = (low & 0x00FFFFFF) << 8; }
    void bit(u16 &p, unsigned b) { u32 bd = (range >> 11) * p; if (!b) { range = bd; p += (u16)((2048 - p) >> 5); } else { low += bd; range -= bd; p -= p >> 5; } while (range < kTop) { range <<= 8; shift(); } }
    void direct(u32 v, int n) { while (n--) { range >>= 1; if ((v >> n) & 1) low += range; while (range < kTop) { range <<= 8; shift(); } } }
    void tree(u16 *p, int n, unsigned v) { unsigned m = 1; for (int i = n - 1; i >= 0; --i) { unsigned b = (v >> i) & 1; bit(p[m], b); m = m << 1 | b; } }
    void rtree(u16 *p, int n, unsigned v) { unsigned m = 1; for (int i = 0; i < n; ++i) { unsigned b = (v >> i) & 1; bit(p[m], b); m = m << 1 | b; } }
    size_t pending() const { return out.size() + csz + 5; }
    void flush() { for (int i = 0; i < 5; ++i) shift(); }
};
void elen(REnc &e, LenP &l, unsigned ps, unsigned len) { len -= 2; if (len < 8) { e.bit(l.c[0], 0); e.tree(l.low[ps], 3, len); } else if (len < 16) { e.bit(l.c[0], 1); e.bit(l.c[1], 0); e.tree(l.mid[ps], 3, len - 8); } else { e.bit(l.c[0], 1); e.bit(l.c[1], 1); e.tree(l.high, 8, len - 16); } }
}
const int SYNTH_DEFECTS = 13;
const char *synth_defect_name(int d) { static const char *n[] = { "none", "eopm", "unused-pack", "props-missing", "match-past-chunk", "beyond-dict", "first-rc-byte", "beyond-data", "state-missing", "bad-props", "short-pack", "eopm-at-end", "no-first-reset" }; return d >= 0 && d < 13 ? n[d] : "?"; }
SynthOut synth_frame(Rng &r, const SynthOpt &opt) {
    SynthOut S; Bytes &o = S.content; Bytes &f = S.frame; Lz *z = new Lz; z->reset(); u8 prop = opt.dict_prop; f.push_back((u8)(prop | (opt.hash ? 0x80 : 0)));
    size_t dict = ref_dict_size(prop), base = 0; bool first = true, need_props = true, need_state = true; int style = (int)r.below(5);
    int defect = opt.defect; size_t defect_from = defect && r.chance(50) ? r.below(opt.target / 2 + 1) : 0; bool armed = false; bool broken = false;
    while (o.size() < opt.target || (first && r.chance(50))) {
        bool dreset = first || r.chance((unsigned)opt.resets_pct); bool act = defect && !broken && o.size() >= defect_from;
        if (act && defect == 12 && first) { dreset = false; broken = true; need_props = need_state = false; z->lc = 3; z->pb = 2; z->reset(); }
        bool rawforce = act && (defect == 3 || defect == 8) && !armed; if (rawforce) dreset = armed = true; else if (armed && !broken) dreset = false;
        if (rawforce || (r.chance(15) && !(dreset && opt.no_unc_reset))) { // raw chunk
            size_t u = r.chance(10) ? 65536 : r.logsize(1, r.chance(30) ? 65536 : 3000); if (opt.max_chunk) u = std::min(u, opt.max_chunk);
            f.push_back(dreset ? 1 : 2); f.push_back((u8)((u - 1) >> 8)); f.push_back((u8)(u - 1)); Bytes t = gen_data(r, u); if (dreset) { base = o.size(); need_props = need_state = true; S.resets++; }
            else if (r.chance(60)) need_state = true;   // what encoders do; going on with the old state is legal too
            f.insert(f.end(), t.begin(), t.end()); o.insert(o.end(), t.begin(), t.end()); first = false; S.chunks++; continue;
        }
        bool pb5 = false; int mode = dreset ? 3 : need_props ? 2 : need_state ? 1 + (int)r.chance(40) : (int)r.pick({ 0, 0, 0, 0, 1, 2 });
        if (act && !dreset && ((defect == 3 && need_props) || (defect == 8 && need_state)) && !first) { mode = defect == 3 ? 1 : 0; if (defect == 8 && need_props) mode = 0; broken = true; }
        if (mode == 3) { base = o.size(); S.resets++; }
        if (mode >= 2) { unsigned lc, lp, pb; do { lc = (unsigned)r.below(5); lp = (unsigned)r.below(5); } while (lc + lp > 4); pb = (unsigned)r.below(5); if (act && defect == 9 && !broken && r.chance(35)) { lc = lp = 0; pb = 4; pb5 = true; } z->lc = lc; z->lp = lp; z->pb = pb; need_props = false; }
        if (mode >= 1) { z->reset(); need_state = false; }
        REnc e; size_t startO = o.size(); size_t maxu = r.chance(20) ? 1 : opt.big_chunks && r.chance(50) ? (1 << 21) : r.logsize(1, 60000); if (r.chance(10)) maxu = r.range(1, 20); if (opt.max_chunk) maxu = std::min(maxu, opt.max_chunk);
        if (opt.big_chunks && style == 2) maxu = 1 << 21;
        if (pb5) maxu = std::min<size_t>(maxu, 16);   // 225 says pb = 5: the first bytes would decode alike
        unsigned pbm = (1u << z->pb) - 1, lpm = (1u << z->lp) - 1;
        while (o.size() - startO < maxu && e.pending() < 65536 - 40) {
            bool now = act && !broken && r.chance(o.size() - startO + 2 >= maxu ? 100 : 8);
            size_t p = o.size() - base, left = maxu - (o.size() - startO); unsigned ps = p & pbm; unsigned &st = z->state; u32 *rp = z->reps;
            int k = (int)r.below(100); int plit = style == 0 ? 60 : style == 1 ? 20 : style == 2 ? 3 : style == 3 ? 95 : 35;
            bool canmatch = p > 0 && left >= 2; size_t maxd = std::min(p, dict); bool illegal = false;
            if (now && (defect == 1 || defect == 5 || defect == 7)) { if (defect == 5 && p <= dict) now = false; else { illegal = broken = true; canmatch = true; k = 100; left = std::max<size_t>(left, 2); } }
            auto rep_ok = [&](u32 d) { return (size_t)d < p && (size_t)d < dict; };
            if (!canmatch || k < plit) {
                if (p > 0 && rep_ok(rp[0]) && r.chance(25)) { // short rep
                    e.bit(z->isMatch[st][ps], 1); e.bit(z->isRep[st], 1); e.bit(z->isRepG0[st], 0); e.bit(z->isRep0L[st][ps], 0); o.push_back(o[o.size() - rp[0] - 1]); st = st < 7 ? 9 : 11; continue; }
                u8 b = (u8)(style == 3 ? r.next() : r.chance(40) ? r.next() : 'a' + r.below(8)); unsigned prev = p ? o.back() : 0; u16 *lp = z->lit + (size_t)0x300 * (((p & lpm) << z->lc) + (prev >> (8 - z->lc)));
                if (st >= 7 && !rep_ok(rp[0])) { /* cannot happen in legal streams */ }
                e.bit(z->isMatch[st][ps], 0); unsigned s = 1 , v = b | 0x100; int i = 7;
                if (st >= 7) { unsigned mb = rp[0] < o.size() ? o[o.size() - rp[0] - 1] : 0; for (; i >= 0; --i) { unsigned m = (mb >> i) & 1, x = (v >> i) & 1; e.bit(lp[((1 + m) << 8) + s], x); s = s << 1 | x; if (m != x) { --i; break; } } }
                for (; i >= 0; --i) { unsigned x = (v >> i) & 1; e.bit(lp[s], x); s = s << 1 | x; }
                o.push_back(b); st = st < 4 ? 0 : st < 10 ? st - 3 : st - 6; continue;
            }
            size_t ml = std::min<size_t>(left, 273); unsigned len = (unsigned)(r.chance(15) ? ml : r.chance(style == 2 ? 60 : 15) ? r.range(2, ml) : r.range(2, std::min<size_t>(ml, 12)));
            e.bit(z->isMatch[st][ps], 1); int which = -1;
            if (!illegal && r.chance(40)) { which = (int)r.below(4); if (!rep_ok(rp[which])) which = -1; }
            if (which >= 0) {
                e.bit(z->isRep[st], 1);
                if (which == 0) { e.bit(z->isRepG0[st], 0); e.bit(z->isRep0L[st][ps], 1); }
                else { e.bit(z->isRepG0[st], 1); if (which == 1) e.bit(z->isRepG1[st], 0); else { e.bit(z->isRepG1[st], 1); e.bit(z->isRepG2[st], which == 3); }
                    u32 x = rp[which]; for (int i = which; i > 0; --i) rp[i] = rp[i - 1]; rp[0] = x; }
                elen(e, z->rep, ps, len); st = st < 7 ? 8 : 11;
            } else {
                size_t dist = r.chance((unsigned)opt.max_far_pct) ? maxd : r.chance(30) ? r.range(1, std::min<size_t>(maxd, 8)) : r.logsize(1, maxd); u32 x = (u32)(dist - 1); if (illegal) x = defect == 1 ? 0xFFFFFFFFu : defect == 5 ? (u32)r.range(dict, p - 1) : (u32)(p + (r.chance(50) ? 0 : r.below(1 << r.range(1, 30))));
                e.bit(z->isRep[st], 0); elen(e, z->len, ps, len); rp[3] = rp[2]; rp[2] = rp[1]; rp[1] = rp[0]; rp[0] = x; unsigned ls = len - 2 > 3 ? 3 : len - 2;
                unsigned slot; if (x < 4) slot = x; else { int hb = 31 - __builtin_clz(x); slot = (unsigned)(hb * 2 + ((x >> (hb - 1)) & 1)); }
                e.tree(z->posSlot[ls], 6, slot); if (slot >= 4) { int nb = (int)(slot >> 1) - 1; u32 bs = (2 | (slot & 1)) << nb; u32 rd = x - bs; if (slot < 14) e.rtree(z->spec + bs - slot, nb, rd); else { e.direct(rd >> 4, nb - 4); e.rtree(z->align, 4, rd & 15); } }
                st = st < 7 ? 7 : 10;
            }
            size_t d = (size_t)rp[0] + 1; for (unsigned i = 0; i < len; ++i) o.push_back(d > o.size() ? 0 : o[o.size() - d]);
            if (now && defect == 4 && len > 2) { o.resize(o.size() - 1); broken = true; break; }
        }
        if (act && !broken && defect == 11) { unsigned ps = (o.size() - base) & pbm; e.bit(z->isMatch[z->state][ps], 1); e.bit(z->isRep[z->state], 0); elen(e, z->len, ps, 2); e.tree(z->posSlot[0], 6, 63); e.direct(0x3FFFFFF, 26); e.rtree(z->align, 4, 15); broken = true; }
        e.flush(); size_t u = o.size() - startO;
        if (act && !broken && defect == 2 && e.out.size() < 65500) { for (int i = (int)r.range(1, 30); i; --i) e.out.push_back((u8)(r.chance(50) ? 0 : r.next())); broken = true; }
        if (act && !broken && defect == 6) { e.out[0] = (u8)r.range(1, 255); broken = true; }
        if (act && !broken && defect == 10 && e.out.size() > 6) { e.out.resize(r.chance(50) ? e.out.size() - 1 : r.range(1, e.out.size() - 1)); broken = true; }
        size_t pk = e.out.size();
        if (pk > 65536 || u == 0) { fprintf(stderr, "synth: chunk too large\n"); abort(); }
        f.push_back((u8)(0x80 | mode << 5 | (u - 1) >> 16)); f.push_back((u8)((u - 1) >> 8)); f.push_back((u8)(u - 1)); f.push_back((u8)((pk - 1) >> 8)); f.push_back((u8)(pk - 1));
        if (mode >= 2) { u8 pr = (u8)((z->pb * 5 + z->lp) * 9 + z->lc); if (act && !broken && defect == 9) { pr = (u8)(pb5 ? 225 : r.chance(50) ? r.range(225, 255) : ((unsigned)r.below(5) * 5 + 1 + (unsigned)r.below(4)) * 9 + (unsigned)r.range(4, 8)); broken = true; } f.push_back(pr); }
        f.insert(f.end(), e.out.begin(), e.out.end()); first = false; S.chunks++;
        if (r.chance(10)) style = (int)r.below(5);
    }
    f.push_back(0); if (opt.hash) { u32 h = ref_xxh32(o.data(), o.size()); for (int i = 3; i >= 0; --i) f.push_back((u8)(h >> (8 * i))); }
    delete z; return S;
}

// ================================================================ corruption
Bytes mutate_frame(Rng &r, const Bytes &in, std::string *how) {
    Bytes f = in; std::string h; int n = (int)(r.chance(70) ? 1 : r.range(1, 4)); std::vector<size_t> heads; // chunk header positions
    { size_t p = 1; while (p < f.size()) { u8 c = f[p]; heads.push_back(p); if (c == 0 || (c > 2 && c < 0x80)) break; if (c < 3) { if (p + 3 > f.size()) break; p += 3 + ((size_t)f[p + 1] << 8 | f[p + 2]) + 1; } else { if (p + 5 > f.size()) break; p += 5 + (c >= 0xC0) + ((size_t)f[p + 3] << 8 | f[p + 4]) + 1; } } }
    while (n--) {
        if (f.empty()) { h += "empty,"; break; }
        size_t hp = heads.empty() ? 0 : heads[r.below(heads.size())]; if (hp >= f.size()) hp = f.size() - 1; auto at = [&](size_t i) { return std::min(i, f.size() - 1); };
        switch (r.below(16)) {
        case 0: { size_t i = r.below(f.size()); f[i] ^= (u8)(1u << r.below(8)); h += "flip@" + std::to_string(i); break; }
        case 1: { size_t i = r.below(f.size()); f[i] = (u8)r.next(); h += "byte@" + std::to_string(i); break; }
        case 2: { size_t i = r.below(f.size()); f.resize(i); h += "trunc" + std::to_string(i); break; }
        case 3: { size_t i = at(hp + r.below(7)); f[i] = (u8)r.next(); h += "head@" + std::to_string(i); break; }
        case 4: { size_t i = at(hp); f[i] = r.pick<u8>({ 0, 1, 2, 3, 0x7F, 0x80, 0x9F, 0xA0, 0xC0, 0xE0, 0xFF, 0xDF }); h += "control@" + std::to_string(i); break; }
        case 5: { size_t i = at(hp + 4); f[i] = (u8)(f[i] + (r.chance(50) ? 1 : -1)); h += "pack@" + std::to_string(i); break; }
        case 6: { size_t i = at(hp + 2); f[i] = (u8)(f[i] + (r.chance(50) ? 1 : -1)); h += "unpack@" + std::to_string(i); break; }
        case 7: { size_t i = at(hp + 5); f[i] = (u8)r.below(240); h += "props@" + std::to_string(i); break; }
        case 8: { f[0] = (u8)(r.chance(50) ? (f[0] ^ 0x80) : r.next()); h += "prop"; break; }
        case 9: { size_t a = r.below(f.size()), l = std::min(f.size() - a, (size_t)r.logsize(1, 200)); f.erase(f.begin() + a, f.begin() + a + l); h += "del@" + std::to_string(a) + "+" + std::to_string(l); break; }
        case 10: { size_t a = r.below(f.size() + 1); Bytes t = gen_data(r, r.logsize(1, 100)); f.insert(f.begin() + a, t.begin(), t.end()); h += "ins@" + std::to_string(a); break; }
        case 11: { size_t a = r.below(f.size()), l = std::min(f.size() - a, (size_t)r.logsize(1, 400)); for (size_t i = 0; i < l; ++i) f[a + i] = (u8)r.next(); h += "scramble@" + std::to_string(a); break; }
        case 12: { if (heads.size() > 2) { size_t i = 1 + r.below(heads.size() - 2); size_t a = std::min(heads[i], f.size()), b = std::min(heads[i + 1], f.size()); f.erase(f.begin() + a, f.begin() + b); h += "dropchunk"; } break; }
        case 13: { if (heads.size() > 2) { size_t i = r.below(heads.size() - 1); size_t a = std::min(heads[i], f.size()), b = std::min(heads[i + 1], f.size()); Bytes t(f.begin() + a, f.begin() + b); size_t at2 = std::min(heads[r.below(heads.size())], f.size()); f.insert(f.begin() + at2, t.begin(), t.end()); h += "dupchunk"; } break; }
        case 14: { size_t k = std::min(f.size(), (size_t)r.range(1, 6)); f.resize(f.size() - k); h += "cuttail" + std::to_string(k); break; }
        default: { size_t i = f.size() - 1 - r.below(std::min<size_t>(f.size(), 8)); f[i] ^= (u8)(1u << r.below(8)); h += "tail@" + std::to_string(i); break; }
        }
        h += ",";
    }
    if (how) *how = h; return f;
}

// ================================================================ guard pages
void Guard::alloc(size_t k, bool at_end) {
    size_t pg = (size_t)sysconf(_SC_PAGESIZE), m = (k + pg - 1) / pg * pg; if (!m) m = pg; maplen = m + 2 * pg; n = k;
    base = (u8 *)mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) { perror("mmap"); abort(); }
    mprotect(base, pg, PROT_NONE); mprotect(base + pg + m, pg, PROT_NONE); p = at_end ? base + pg + m - k : base + pg;
}
Guard::~Guard() { if (base) munmap(base, maplen); }

// ================================================================ command line, loop
Args vf_args(int argc, char **argv) {
    Args a; for (int i = 1; i < argc; ++i) { std::string s = argv[i]; auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (s == "--seed") a.seed = strtoull(v().c_str(), 0, 0); else if (s == "--start") a.start = strtoull(v().c_str(), 0, 0); else if (s == "--count") a.count = strtoull(v().c_str(), 0, 0);
        else if (s == "--stride") a.stride = strtoull(v().c_str(), 0, 0); else if (s == "--mode") a.mode = v(); else if (s == "--tier") a.tier = v(); else if (s == "--extra") a.extra = v(); else if (s == "--salt") a.salt = v();
        else if (s == "--only") { a.only = strtoull(v().c_str(), 0, 0); a.has_only = true; } else if (s == "--verbose") vf_verbose = 1; }
    return a;
}
void vf_loop(const Args &a, const std::function<void(u64, Rng &)> &body) {
    u64 k = 0, tag = hash_bytes((const u8 *)a.mode.data(), a.mode.size()) ^ (a.salt.empty() ? 0 : hash_bytes((const u8 *)a.salt.data(), a.salt.size()));
    if (a.has_only) { vf_case(a.only); Rng r(mix64(a.seed, a.only, tag)); body(a.only, r); vf_flush(); return; }
    for (u64 i = a.start; i < a.count; i += a.stride) { vf_case(i); Rng r(mix64(a.seed, i, tag)); body(i, r); if (++k % 16 == 0) vf_flush(); }
    vf_flush();
}
