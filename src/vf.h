// Common pieces of the verification workloads: deterministic random numbers, data generators,
// an independent LZMA2 decoder (the oracle), a legal-stream synthesiser, reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <algorithm>
#include <functional>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef std::vector<u8> Bytes;

// ---------------------------------------------------------------- random numbers
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) { next(); next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }     // inclusive
    bool chance(unsigned pct) { return below(100) < pct; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    size_t logsize(size_t lo, size_t hi) {                              // log-uniform in [lo,hi]
        unsigned a = 0, b = 0; while (((size_t)2 << a) <= lo) ++a; while (((size_t)2 << b) <= hi) ++b;
        unsigned k = (unsigned)range(a, b); size_t v = ((size_t)1 << k) + below((size_t)1 << k);
        return std::min(std::max(v, lo), hi);
    }
};
u64 mix64(u64 a, u64 b, u64 c = 0);

// ---------------------------------------------------------------- reporting
// Every worker writes line records to stdout; the driver (run/check.py) aggregates them.
void vf_case(u64 idx);                                  // about to run case idx
void vf_stat(const char *key, u64 n = 1);               // add n to a counter
void vf_max(const char *key, u64 v);                    // keep maximum
void vf_distinct(const char *key, u64 h);               // count distinct hashes
void vf_sample(const char *fmt, ...);                   // a sample case, written out
void vf_viol(const char *key, const char *fmt, ...);    // property violated in the current case
void vf_info(const char *fmt, ...);                     // detail of the current case for the replay file
void vf_ref(const char *key, u64 digest, const char *fmt, ...);   // an answer to be compared with the same case in other builds (key: no blanks)
void vf_flush();
extern int vf_verbose;

// ---------------------------------------------------------------- xxh32 (own implementation)
u32 ref_xxh32(const u8 *p, size_t n, u32 seed = 0);

// ---------------------------------------------------------------- data
Bytes gen_data(Rng &r, size_t size, int kind = -1);
const char *gen_kind_name(int kind);
extern const int GEN_KINDS;
size_t gen_size(Rng &r, size_t cap);                    // sizes biased to structural boundaries

// ---------------------------------------------------------------- reference decoder
struct ChunkInfo { u8 control; size_t pos, head, unpack, pack; u8 props; bool has_props; };
enum RefStatus { REF_OK, REF_TRUNC, REF_BAD };
struct RefResult {
    RefStatus st = REF_BAD;
    std::string why;
    Bytes out;                 // what was decoded before the end / error
    size_t consumed = 0;       // input used, end marker included
    std::vector<ChunkInfo> chunks;
    size_t max_dist = 0;       // largest distance used (since last dictionary reset)
    bool soft = false;         // accepted here, but other conforming decoders may refuse
    std::string soft_why;
    size_t dict_resets = 0, nmatch = 0, nrep = 0, nlit = 0, nshort = 0, max_len = 0, unc_chunks = 0;
    size_t bad_at_out = 0; bool partial = false;   // bad: the offending chunk is not complete in the input
};
// dict_size: distances above it are an error (SIZE_MAX: only bounded by the data since the reset)
RefResult ref_lzma2(const u8 *src, size_t n, size_t dict_size, size_t out_limit = (size_t)1 << 31);
bool ref_walk(const u8 *src, size_t n);        // the chunk headers lead to an end marker
size_t ref_dict_size(u8 prop);  // property byte (no hash flag) -> dictionary size, 0 if invalid
// A whole frame: property byte, chunks, end marker, hash.
struct FrameResult { RefStatus st = REF_BAD; std::string why; RefResult r; u8 prop = 0; bool has_hash = false;
    u32 hash_stored = 0, hash_actual = 0; bool hash_ok = true; size_t consumed = 0; };
FrameResult ref_frame(const u8 *src, size_t n, size_t out_limit = (size_t)1 << 31, bool strict_dict = true);

struct RefOp { size_t pos; unsigned len; size_t dist; };
extern std::vector<RefOp> *ref_trace;          // when set, ref_lzma2 records every match here
size_t xz_encode(const u8 *src, size_t n, unsigned preset, u32 dict);   // size liblzma needs, 0: failed
// liblzma's raw LZMA2 decoder as a second opinion: 0 complete, 1 data error, 2 needs more, -2 not usable
int xz_lzma2(const u8 *src, size_t n, u32 dict, Bytes &out, size_t limit, size_t *consumed);

// ---------------------------------------------------------------- synthesiser of legal LZMA2 streams
// Produces streams that use everything the format allows, not only what one encoder emits.
struct SynthOpt { size_t target = 20000; u8 dict_prop = 0; bool hash = true; int resets_pct = 10; bool big_chunks = false;
    int max_far_pct = 10; size_t max_chunk = 0; bool no_unc_reset = false; int defect = 0; };
extern const int SYNTH_DEFECTS; const char *synth_defect_name(int d);   // 1..SYNTH_DEFECTS-1: one rule of the format is broken in one place
struct SynthOut { Bytes frame, content; size_t chunks = 0, resets = 0; };
SynthOut synth_frame(Rng &r, const SynthOpt &o);

// ---------------------------------------------------------------- helpers
Bytes mutate_frame(Rng &r, const Bytes &f, std::string *how = nullptr);   // structure aware corruption
std::string hexs(const u8 *p, size_t n, size_t maxn = 48);
u64 hash_bytes(const u8 *p, size_t n);
inline u64 hash_bytes(const Bytes &b) { return hash_bytes(b.data(), b.size()); }

// A buffer whose end (and start) touch inaccessible pages.
struct Guard {
    u8 *base = nullptr; size_t maplen = 0; u8 *p = nullptr; size_t n = 0;
    Guard() {} explicit Guard(size_t n, bool at_end = true) { alloc(n, at_end); }
    void alloc(size_t n, bool at_end = true);
    ~Guard(); Guard(const Guard &) = delete; Guard &operator=(const Guard &) = delete;
};

// worker command line
struct Args { u64 seed = 1, start = 0, count = 1, stride = 1; std::string mode, tier = "quick", extra, salt; u64 only = ~0ull; bool has_only = false; };
Args vf_args(int argc, char **argv);
// runs body(case index, rng for the case) for start, start+stride, ...
void vf_loop(const Args &a, const std::function<void(u64, Rng &)> &body);
