// Helpers over the public API of the library under test (only fast-lzma2.h and fl2_errors.h).
#pragma once
#include "vf.h"
#include "vfhook.h"
#include "fast-lzma2.h"
#include "fl2_errors.h"
#include <time.h>

inline const char *enm(size_t c) { return FL2_getErrorName(c); }
inline double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- compression parameters
struct Params {
    int level = 0; bool high = false; std::vector<std::pair<FL2_cParameter, size_t>> set; bool hash = true, omit = false, hash_opt = true;
    size_t dict = 0;              // explicit dictionary size (0: the level's)
    unsigned reset = 4, overlap = 2; unsigned lc = 3, lp = 0, pb = 2; unsigned strategy = 0;
    std::string desc() const {
        std::string s = "level=" + std::to_string(level) + (high ? " high" : ""); char b[64];
        for (auto &p : set) { snprintf(b, 64, " p%d=%zu", (int)p.first, p.second); s += b; } return s; }
    void add(FL2_cParameter p, size_t v) { set.push_back({ p, v }); }
};
enum PProf { PP_FAST = 1, PP_NOOMIT = 2, PP_SMALLDICT = 4 };
inline Params gen_params(Rng &r, unsigned prof = PP_NOOMIT) {
    Params p; p.high = r.chance(10);
    p.level = p.high ? (int)r.range(1, 3) : r.chance(85) ? (int)r.range(1, 6) : (int)r.range(7, 10);
    if (r.chance(8)) p.level = 0;
    bool small = (prof & PP_SMALLDICT) || r.chance(75);
    if (small || p.level > 6) { p.dict = r.chance(50) ? (size_t)1 << 20 : r.chance(50) ? ((size_t)1 << 20) + r.below(300000) : r.chance(60) ? (size_t)1 << 21 : ((size_t)1 << 20) + r.below(3u << 20);
        if (__builtin_popcountll(p.dict) == 1 && r.chance(50)) p.add(FL2_p_dictionaryLog, (size_t)__builtin_ctzll(p.dict)); else p.add(FL2_p_dictionarySize, p.dict); }
    if (r.chance(45)) { p.overlap = (unsigned)(r.chance(30) ? r.pick({ 0, 1, 14 }) : r.range(0, 14)); p.add(FL2_p_overlapFraction, p.overlap); }
    if (r.chance(50)) { p.reset = (unsigned)(r.chance(70) ? r.range(0, 3) : r.range(0, 16)); p.add(FL2_p_resetInterval, p.reset); }
    if (r.chance(25)) p.add(FL2_p_bufferResize, r.range(0, 4));
    if (r.chance(35)) { p.strategy = (unsigned)r.below(3); p.add(FL2_p_strategy, p.strategy); }
    if (r.chance(25)) p.add(FL2_p_hybridChainLog, r.range(4, 14));
    if (r.chance(20)) p.add(FL2_p_hybridCycles, r.chance(80) ? r.range(1, 8) : r.range(1, 64));
    if (r.chance(40)) p.add(FL2_p_searchDepth, r.chance(40) ? r.pick({ 6, 7, 42, 62, 63, 64, 65, 253, 254 }) : r.range(6, 254));
    if (r.chance(30)) p.add(FL2_p_fastLength, r.chance(40) ? r.pick({ 6, 7, 272, 273, 48 }) : r.range(6, 273));
    if (r.chance(25)) p.add(FL2_p_divideAndConquer, r.below(2));
    if (r.chance(35)) { unsigned lc, lp, pb = (unsigned)r.below(5); do { lc = (unsigned)r.below(5); lp = (unsigned)r.below(5); } while (lc + lp > 4);
        // order chosen so that the intermediate sum never exceeds the limit
        p.add(FL2_p_literalCtxBits, 0); p.add(FL2_p_literalPosBits, lp); p.add(FL2_p_literalCtxBits, lc); p.add(FL2_p_posBits, pb); p.lc = lc; p.lp = lp; p.pb = pb; }
    bool hset = r.chance(25), hval = hset && r.chance(30);      // the same draws in every build
#ifdef NO_XXHASH
    p.hash = p.hash_opt = false; (void)hval;
#else
    if (hset) { p.hash = p.hash_opt = hval; p.add(FL2_p_doXXHash, p.hash); }
#endif
    if (!(prof & PP_NOOMIT) && r.chance(12)) { p.omit = true; p.hash = false; p.add(FL2_p_omitProperties, 1); }
    return p;
}
// returns 0 or the first error
inline size_t apply_params(FL2_CCtx *c, const Params &p) {
    size_t e;
    if (FL2_isError(e = FL2_CCtx_setParameter(c, FL2_p_highCompression, p.high))) return e;
    if (p.level && FL2_isError(e = FL2_CCtx_setParameter(c, FL2_p_compressionLevel, p.level))) return e;
    for (auto &q : p.set) if (FL2_isError(e = FL2_CCtx_setParameter(c, q.first, q.second))) return e;
    return 0;
}
// brings a context that had other parameters to the state of a fresh one with p
inline size_t reset_params(FL2_CCtx *c) {
    size_t e;
    if (FL2_isError(e = FL2_CCtx_setParameter(c, FL2_p_highCompression, 0))) return e;
    if (FL2_isError(e = FL2_CCtx_setParameter(c, FL2_p_compressionLevel, 6))) return e;
    FL2_CCtx_setParameter(c, FL2_p_resetInterval, 4); FL2_CCtx_setParameter(c, FL2_p_omitProperties, 0);
#ifndef NO_XXHASH
    FL2_CCtx_setParameter(c, FL2_p_doXXHash, 1);
#endif
    return 0;
}

// ---------------------------------------------------------------- a frame as the independent decoder sees it
// raw: no property byte (omitProperties); prop is then the byte to use
inline FrameResult judge(const Bytes &c, bool raw = false, u8 prop = 0) {
    if (!raw) return ref_frame(c.data(), c.size());
    Bytes t; t.reserve(c.size() + 1); t.push_back((u8)(prop & 0x3F)); t.insert(t.end(), c.begin(), c.end()); FrameResult F = ref_frame(t.data(), t.size()); F.consumed--; return F;
}

// ---------------------------------------------------------------- one-shot decompression through a given API
enum DecApi { D_SIMPLE, D_MT, D_CTX, D_CTXMT };
inline size_t oneshot(int api, unsigned threads, u8 *dst, size_t cap, const u8 *src, size_t n) {
    switch (api) { case D_SIMPLE: return FL2_decompress(dst, cap, src, n); case D_MT: return FL2_decompressMt(dst, cap, src, n, threads);
    default: { FL2_DCtx *d = api == D_CTX ? FL2_createDCtx() : FL2_createDCtxMt(threads); if (!d) return (size_t)-FL2_error_memory_allocation; size_t z = FL2_decompressDCtx(d, dst, cap, src, n); FL2_freeDCtx(d); return z; } }
}

// ---------------------------------------------------------------- streaming decompression of a whole frame
struct DResult { size_t code = 1; Bytes out; size_t consumed = 0; u64 calls = 0, timeouts = 0; bool stalled = false, stuck = false; u64 progress = 0; bool ended = false; const char *bad = nullptr; };
struct DOpt { size_t in_max = 1 << 30, out_max = 1 << 30; bool exact_in = false; int style = 0; bool raw = false; u8 prop = 0; size_t out_limit = (size_t)1 << 31; u64 wait_cap = 200000; bool offs = true; bool strict = false;   // strict: no new piece before the last one was consumed
    std::function<void(size_t fed, size_t got, size_t code)> observe; };
// style 0: random piece sizes up to the maxima; 1: one byte input; 2: one byte output; 3: everything at once; 4: mixed bursts
inline DResult dstream_run(FL2_DStream *d, const Bytes &f, Rng &r, const DOpt &o) {
    DResult R; size_t pos = 0; size_t ini = o.raw ? FL2_initDStream_withProp(d, o.prop) : FL2_initDStream(d); if (FL2_isError(ini)) { R.code = ini; return R; }
    size_t avail = 0; int idle = 0, zero = 0; Bytes obuf;
    for (;;) {
        size_t want_in, want_out;
        switch (o.style) {
        case 1: want_in = 1; want_out = r.logsize(1, o.out_max); break;
        case 2: want_out = 1; want_in = r.logsize(1, o.in_max); break;
        case 3: want_in = f.size(); want_out = o.out_max; break;
        case 4: want_in = r.chance(50) ? r.range(0, 8) : r.logsize(1, o.in_max); want_out = r.chance(50) ? r.range(0, 8) : r.logsize(1, o.out_max); break;
        default: want_in = r.logsize(1, o.in_max); want_out = r.logsize(1, o.out_max); break;
        }
        if (o.strict && want_in == 0) want_in = 1;
        if (idle && !o.strict) { want_in = std::max<size_t>(want_in, 64); want_out = std::max<size_t>(want_out, 64); }
        // input not consumed so far must be presented again, so a piece starts at pos
        if (!o.strict || avail == 0) avail = std::min(f.size() - pos, std::max(want_in, avail));
        if (o.strict && want_out == 0) want_out = 1;
        if (idle && !o.strict) avail = std::min(f.size() - pos, avail + want_in);
        obuf.resize(want_out);
        // exact-size heap copy: an access outside is visible to the address sanitizer
        size_t io = o.offs && r.chance(25) ? r.range(1, 40) : 0, oo = o.offs && r.chance(25) ? r.range(1, 40) : 0;     // positions need not start at zero
        u8 *ib = (u8 *)malloc(io + avail ? io + avail : 1); if (io) memset(ib, 0xEE, io); if (avail) memcpy(ib + io, f.data() + pos, avail); u8 *ob = (u8 *)malloc(oo + want_out ? oo + want_out : 1); if (oo) memset(ob, 0x5C, oo);
        FL2_inBuffer in = { ib, io + avail, io }; FL2_outBuffer out = { ob, oo + want_out, oo };
        size_t c = FL2_decompressStream(d, &out, &in); R.calls++;
        if (FL2_isTimedOut(c)) { u64 w = 0; do { R.timeouts++; c = FL2_waitDStream(d); } while (FL2_isTimedOut(c) && ++w < o.wait_cap); if (FL2_isTimedOut(c)) { R.stalled = true; R.code = c; FL2_cancelDStream(d); free(ib); free(ob); return R; } }
        bool over = in.pos > in.size || out.pos > out.size || in.pos < io || out.pos < oo; if (over) R.bad = in.pos < io || out.pos < oo ? "a position moved backwards" : "a position moved past its buffer";
        for (size_t i = 0; i < oo; ++i) if (ob[i] != 0x5C) { over = true; R.bad = "output written before its position"; break; }
        size_t moved = 0;
        if (!over) { in.pos -= io; out.pos -= oo; R.out.insert(R.out.end(), ob + oo, ob + oo + out.pos); pos += in.pos; avail -= in.pos; moved = in.pos + out.pos; }
        if (o.observe) o.observe(pos, R.out.size(), c);
        free(ib); free(ob);
        R.code = c; R.consumed = pos;
        if (over) { R.stalled = true; return R; }
        if (FL2_isError(c)) return R;
        if (c == 0) { R.ended = true; R.progress = FL2_getDStreamProgress(d); return R; }
        if (R.out.size() > o.out_limit) { R.stalled = true; return R; }
        if (o.strict) { if (moved == 0 && (want_out != 0 || ++zero > 1000)) { if (++idle >= 12) { R.stuck = avail != 0; return R; } } else if (moved) idle = 0; continue; }
        if (moved == 0) { if (pos + avail >= f.size() && want_out >= 64) { if (++idle >= 2) return R; } else idle = 1; } else idle = 0;
    }
}

// ---------------------------------------------------------------- streaming compression driven by a random script
struct COpt {
    size_t in_max = 1 << 20, out_max = 1 << 20; int push_pct = 50, pull_pct = 30, flush_pct = 2, query_pct = 5, nullout_pct = 20; bool change_lclppb = false;
    std::function<void(const char *op, size_t fed, size_t got, bool timed)> observe;   // after every call
    std::function<void(size_t fed, size_t got)> flushed;       // after every completed flush
    size_t stop_after = SIZE_MAX; // abandon once this much was fed
    u64 max_calls = 4000000; u64 max_flush = 3; bool no_end = false; std::vector<size_t> cuts;   // ascending input positions at which to flush
};
struct CRun { size_t err = 0; const char *op = ""; Bytes out; std::vector<std::pair<size_t, size_t>> flushes; u64 calls = 0, timeouts = 0, pulls = 0, pushes = 0, nulls = 0; size_t fed = 0; bool ended = false, stuck = false; std::string note; u64 ophash = 7; };
// Runs of a short period, split by literals, with flushes placed inside and next to them: the blocks of a
// stream then start in the middle of every kind of repeat, with other data of the same kind before it.
inline Bytes gen_seams(Rng &r, size_t size, std::vector<size_t> &cuts) {
    Bytes d; u8 alpha[4]; for (u8 &x : alpha) x = (u8)r.next(); if (r.chance(50)) alpha[1] = (u8)(alpha[0] ^ 1);
    while (d.size() < size) {
        size_t run = r.chance(60) ? r.logsize(1, 700) : r.logsize(1, 20000); unsigned per = r.chance(45) ? 2 : r.chance(50) ? 1 : (unsigned)r.range(1, 5); size_t at = d.size();
        if (d.size() > 300 && r.chance(15)) { size_t from = r.below(d.size() - 1); for (size_t i = 0; i < run; ++i) d.push_back(d[from + i]); }
        else { u8 pat[5]; for (u8 &x : pat) x = alpha[r.below(4)]; for (size_t i = 0; i < run; ++i) d.push_back(pat[i % per]); }
        if (r.chance(50)) for (size_t i = r.below(6); i; --i) d.push_back((u8)r.next());
        if (r.chance(25)) { size_t c = at + (r.chance(60) ? std::min<size_t>(run, r.below(40)) : r.below(run + 1)); if (cuts.empty() ? c > 0 : c > cuts.back()) cuts.push_back(c); }
    }
    return d;
}
// f: the initialised stream
inline CRun cstream_run(FL2_CStream *f, const Bytes &in, Rng &r, const COpt &o) {
    CRun R; size_t pos = 0; bool must_read = false; u64 nflush = 0; u64 still = 0;
    auto seen = [&](const char *op, size_t c) { R.calls++; R.op = op; R.ophash = (R.ophash ^ (u64)op[0] * 31 ^ (FL2_isTimedOut(c) ? 99 : FL2_isError(c) ? 77 : c)) * 0x100000001b3ull; if (FL2_isTimedOut(c)) R.timeouts++; if (o.observe) o.observe(op, pos, R.out.size(), FL2_isTimedOut(c)); };
    auto fail = [&](size_t c) { if (FL2_isError(c) && !FL2_isTimedOut(c)) { R.err = c; return true; } return false; };
    // read everything pending through the pull interface
    auto drain = [&]() -> bool { for (;;) { FL2_cBuffer cb; size_t c = FL2_getNextCompressedBuffer(f, &cb); seen("next", c); if (FL2_isTimedOut(c)) { if (++still > 3000000) { R.stuck = true; return false; } continue; } if (fail(c)) return false; if (c == 0) return true; if (c != cb.size) { R.note = "getNextCompressedBuffer result differs from the buffer size"; }
            R.out.insert(R.out.end(), (const u8 *)cb.src, (const u8 *)cb.src + cb.size); R.pulls++; } };
    auto with_out = [&](const char *op, const std::function<size_t(FL2_outBuffer *)> &call) -> size_t {
        size_t n = r.chance(15) ? r.range(1, 16) : r.logsize(1, o.out_max); u8 *b = (u8 *)malloc(n); FL2_outBuffer ob = { b, n, 0 };
        size_t c = call(&ob); if (ob.pos > ob.size) { R.note = "output position past the buffer"; ob.pos = ob.size; } R.out.insert(R.out.end(), b, b + ob.pos); if (ob.pos) still = 0; free(b); seen(op, c); return c; };
    size_t goal = std::min(in.size(), o.stop_after), cut = 0;
    while (pos < goal) {
        if (R.calls > o.max_calls || ++still > 3000000) { R.stuck = true; return R; }
        if (must_read) { if (r.chance((unsigned)o.pull_pct)) { if (!drain()) { R.fed = pos; return R; } must_read = false; } else { size_t c = with_out("copy", [&](FL2_outBuffer *b) { return FL2_copyCStreamOutput(f, b); }); if (fail(c)) { R.fed = pos; return R; } must_read = c == 1; } if (must_read || r.chance(50)) continue; }
        if (r.chance((unsigned)o.query_pct)) { size_t c = FL2_waitCStream(f); seen("wait", c); if (fail(c)) { R.fed = pos; return R; } if (c == 1) { must_read = true; continue; } }
        if (o.change_lclppb && r.chance(10)) { unsigned lc, lp, pb = (unsigned)r.below(5); do { lc = (unsigned)r.below(5); lp = (unsigned)r.below(5); } while (lc + lp > 4);
            FL2_waitCStream(f); FL2_CStream_setParameter(f, FL2_p_literalCtxBits, 0); FL2_CStream_setParameter(f, FL2_p_literalPosBits, lp); FL2_CStream_setParameter(f, FL2_p_literalCtxBits, lc); FL2_CStream_setParameter(f, FL2_p_posBits, pb); }
        bool at_cut = cut < o.cuts.size() && pos >= o.cuts[cut];
        if (at_cut || (nflush < o.max_flush && r.chance((unsigned)o.flush_pct))) {
            if (at_cut) ++cut; else ++nflush; bool nul = r.chance(40); u64 k = 0;
            for (;;) { size_t c; if (nul) { if (!drain()) { R.fed = pos; return R; } c = FL2_flushStream(f, nullptr); seen("flush0", c); } else c = with_out("flush", [&](FL2_outBuffer *b) { return FL2_flushStream(f, b); });
                if (FL2_isTimedOut(c)) { if (++k > 3000000) { R.stuck = true; return R; } continue; } if (fail(c)) { R.fed = pos; return R; } if (c == 0) break; if (nul) { if (!drain()) { R.fed = pos; return R; } } if (++k > 3000000) { R.stuck = true; return R; } }
            R.flushes.push_back({ pos, R.out.size() }); if (o.flushed) o.flushed(pos, R.out.size()); continue;
        }
        size_t want = std::min(goal - pos, r.chance(10) ? (size_t)r.range(1, 64) : r.logsize(1, o.in_max));
        if (cut < o.cuts.size()) want = std::min(want, o.cuts[cut] - pos);
        if (r.chance((unsigned)o.push_pct)) {
            FL2_dictBuffer db = { nullptr, 0 }; size_t c = FL2_getDictionaryBuffer(f, &db); seen("dict", c); if (FL2_isTimedOut(c)) continue; if (fail(c)) { R.fed = pos; return R; }
            if (db.size == 0) { if (!drain()) { R.fed = pos; return R; } must_read = false; continue; }
            size_t k = std::min<size_t>(want, db.size); memcpy(db.dst, in.data() + pos, k); pos += k; still = 0; R.pushes++;
            c = FL2_updateDictionary(f, k); seen("update", c); if (fail(c)) { R.fed = pos; return R; } must_read = !FL2_isError(c) && c == 1;
        } else {
            u8 *b = (u8 *)malloc(want); memcpy(b, in.data() + pos, want); FL2_inBuffer ib = { b, want, 0 }; size_t c;
            if (r.chance((unsigned)o.nullout_pct)) { c = FL2_compressStream(f, nullptr, &ib); seen("cs0", c); R.nulls++; }
            else c = with_out("cs", [&](FL2_outBuffer *ob) { return FL2_compressStream(f, ob, &ib); });
            if (ib.pos > ib.size) R.note = "input position past the buffer"; if (ib.pos) still = 0;
            // "always consumes the entire input unless an error occurs or the dictionary buffer is filled"
            free(b); pos += std::min(ib.pos, want); if (fail(c)) { R.fed = pos; return R; } must_read = !FL2_isError(c) && c == 1;
        }
    }
    R.fed = pos; if (o.no_end || o.stop_after != SIZE_MAX) return R;
    u64 k = 0;
    for (;;) {
        if (++k > 3000000) { R.stuck = true; return R; }
        bool nul = r.chance(35); size_t c;
        if (nul) { if (!drain()) return R; c = FL2_endStream(f, nullptr); seen("end0", c); if (!FL2_isError(c) && c == 1) { if (!drain()) return R; } }
        else c = with_out("end", [&](FL2_outBuffer *b) { return FL2_endStream(f, b); });
        if (FL2_isTimedOut(c)) continue; if (fail(c)) return R; if (c == 0) break;
    }
    R.ended = true; return R;
}
