// C14: parameters are validated, stored and obeyed; errors have names; calls out of order are refused.
#include "fl2h.h"
#include <climits>
typedef std::map<int, size_t> Model;
static const int BOOLS[] = { FL2_p_divideAndConquer, FL2_p_omitProperties,
#ifndef NO_XXHASH
    FL2_p_doXXHash
#endif
};
struct Range { int p; size_t lo, hi; };
static const Range RANGES[] = { { FL2_p_dictionaryLog, FL2_DICTLOG_MIN, FL2_DICTLOG_MAX }, { FL2_p_dictionarySize, FL2_DICTSIZE_MIN, FL2_DICTSIZE_MAX }, { FL2_p_overlapFraction, FL2_BLOCK_OVERLAP_MIN, FL2_BLOCK_OVERLAP_MAX }, { FL2_p_resetInterval, FL2_RESET_INTERVAL_MIN, FL2_RESET_INTERVAL_MAX },
    { FL2_p_bufferResize, FL2_BUFFER_RESIZE_MIN, FL2_BUFFER_RESIZE_MAX }, { FL2_p_hybridChainLog, FL2_CHAINLOG_MIN, FL2_CHAINLOG_MAX }, { FL2_p_hybridCycles, FL2_HYBRIDCYCLES_MIN, FL2_HYBRIDCYCLES_MAX }, { FL2_p_searchDepth, FL2_SEARCH_DEPTH_MIN, FL2_SEARCH_DEPTH_MAX }, { FL2_p_fastLength, FL2_FASTLENGTH_MIN, FL2_FASTLENGTH_MAX },
    { FL2_p_strategy, 0, FL2_ultra }, { FL2_p_literalCtxBits, FL2_LC_MIN, FL2_LC_MAX }, { FL2_p_literalPosBits, FL2_LP_MIN, FL2_LP_MAX }, { FL2_p_posBits, FL2_PB_MIN, FL2_PB_MAX } };
static const int HASHP = FL2_p_omitProperties + 1;
static const int LAST =
#ifndef NO_XXHASH
    FL2_p_doXXHash;
#else
    FL2_p_omitProperties;
#endif
static int err_of(size_t c) { return FL2_isError(c) ? (int)FL2_getErrorCode(c) : 0; }
static size_t log2ceil(size_t v) { size_t k = FL2_DICTLOG_MIN; while (((size_t)1 << k) < v) ++k; return k; }
// what a level sets, from the public query
static bool level_model(Model &m, int level, int high) {
    FL2_compressionParameters q; memset(&q, 0x55, sizeof q); size_t e = FL2_getLevelParameters(level, high, &q); if (FL2_isError(e)) { vf_viol("level-query", "FL2_getLevelParameters(%d, %d): %s", level, high, enm(e)); return false; }
    m[FL2_p_compressionLevel] = (size_t)level; m[FL2_p_dictionarySize] = q.dictionarySize; m[FL2_p_overlapFraction] = q.overlapFraction; m[FL2_p_hybridChainLog] = q.chainLog; m[FL2_p_hybridCycles] = (size_t)1 << q.cyclesLog; m[FL2_p_searchDepth] = q.searchDepth; m[FL2_p_fastLength] = q.fastLength; m[FL2_p_divideAndConquer] = q.divideAndConquer != 0; m[FL2_p_strategy] = q.strategy;
    return true; }
// lc, lp, pb and the buffer size are not in the structure: a level brings them to their documented defaults
static void level_rest(Model &m) { m[FL2_p_literalCtxBits] = 3; m[FL2_p_literalPosBits] = 0; m[FL2_p_posBits] = 2; m[FL2_p_bufferResize] = FL2_BUFFER_RESIZE_DEFAULT; }
static Model defaults() { Model m; level_model(m, 6, 0); level_rest(m); m[FL2_p_highCompression] = 0; m[FL2_p_resetInterval] = 4; m[FL2_p_omitProperties] = 0;
#ifndef NO_XXHASH
    m[FL2_p_doXXHash] = 1;
#endif
    return m; }
static void verify(FL2_CCtx *c, const Model &m, const std::string &log) {
    for (int p = 0; p <= LAST; ++p) { size_t v = FL2_CCtx_getParameter(c, (FL2_cParameter)p), w = FL2_CStream_getParameter(c, (FL2_cParameter)p); vf_stat("gets"); if (v != w) vf_viol("get-differs", "parameter %d: CCtx %zu, CStream %zu", p, v, w);
        if (p == FL2_p_dictionaryLog) { size_t d = m.at(FL2_p_dictionarySize), lg = log2ceil(d); if (v != lg && !(((size_t)1 << lg) != d && v + 1 == lg)) vf_viol("get-log", "dictionaryLog is %zu for a size of %zu (%s)", v, d, log.c_str()); continue; }
        auto it = m.find(p); if (it != m.end() && v != it->second) vf_viol("stored", "parameter %d is %zu, expected %zu (%s)", p, v, it->second, log.c_str()); }
    for (int p : { LAST + 1 + 3, 1000, 0x7fffffff }) { size_t v = FL2_CCtx_getParameter(c, (FL2_cParameter)p); if (err_of(v) != FL2_error_parameter_unsupported) vf_viol("get-unknown", "get of parameter %d gives %zu", p, v); v = FL2_CCtx_setParameter(c, (FL2_cParameter)p, 1); if (err_of(v) != FL2_error_parameter_unsupported && err_of(v) != FL2_error_stage_wrong) vf_viol("set-unknown", "set of parameter %d gives %zu", p, v); }
}
static const char *OPN[] = { "?" };
// a random set; the model follows
static void rnd_set(FL2_CCtx *c, Model &m, Rng &r, bool locked, std::string &log) {
    int p; size_t v; bool valid = true; const Range *R = nullptr; char t[80];
    int which = (int)r.below(20);
    if (which == 0) { p = FL2_p_compressionLevel; int mx = m[FL2_p_highCompression] ? FL2_maxHighCLevel() : FL2_maxCLevel(); v = r.chance(60) ? r.range(1, mx) : r.pick<size_t>({ 0, (size_t)mx + 1, (size_t)mx + 2, 255, (size_t)1 << 32, ((size_t)1 << 32) + 3, (size_t)-1, (size_t)1 << 63 }); valid = v >= 1 && v <= (size_t)mx; }
    else if (which == 1) { p = FL2_p_highCompression; v = r.below(2); }
    else if (which == 2) { p = BOOLS[r.below(sizeof BOOLS / sizeof *BOOLS)]; v = r.below(2); }
    else { R = &RANGES[r.below(sizeof RANGES / sizeof *RANGES)]; p = R->p; int k = (int)r.below(10); size_t big[] = { R->hi + 2, R->hi * 2 + 1, 0xFFFFFFFFu, ((size_t)1 << 32) + R->lo, ((size_t)1 << 32) + R->hi, (size_t)-1, (size_t)-(long)R->lo - 1, (size_t)1 << 63, ((size_t)1 << 63) + R->lo, 0x100 + R->lo, 0x10000 + R->lo };
        if (k < 4) v = r.range(R->lo, R->hi); else if (k == 4) v = R->lo; else if (k == 5) v = R->hi; else if (k == 6) v = R->hi + 1; else if (k == 7 && R->lo) v = R->lo - 1; else if (k == 7) v = 0; else if (k == 8) v = big[r.below(sizeof big / sizeof *big)]; else v = R->lo ? r.below(R->lo) : R->hi + r.below(1000);
        valid = v >= R->lo && v <= R->hi; if (p == FL2_p_resetInterval && v == 0) valid = true; /* 0: never */ }
    size_t e = r.chance(50) ? FL2_CCtx_setParameter(c, (FL2_cParameter)p, v) : FL2_CStream_setParameter(c, (FL2_cParameter)p, v); int ec = err_of(e); vf_stat(valid ? "sets_valid" : "sets_invalid"); vf_distinct("nontrivial", mix64(p, v, locked));
    snprintf(t, sizeof t, " %d=%zu%s", p, v, FL2_isError(e) ? "!" : ""); log += t;
    bool lcp = p == FL2_p_literalCtxBits || p == FL2_p_literalPosBits || p == FL2_p_posBits;
    if (locked && !lcp) { vf_stat("sets_locked"); if (ec != FL2_error_stage_wrong && !(!valid && ec == FL2_error_parameter_outOfBound)) vf_viol("lock", "parameter %d=%zu in a stream: %s", p, v, ec ? enm(e) : "accepted"); return; }
    if (!valid) { if (ec != FL2_error_parameter_outOfBound) vf_viol("out-of-bound", "parameter %d=%zu: %s (%s)", p, v, ec ? enm(e) : "accepted", log.c_str()); return; }
    if (p == FL2_p_literalCtxBits || p == FL2_p_literalPosBits) { size_t other = m[p == FL2_p_literalCtxBits ? FL2_p_literalPosBits : FL2_p_literalCtxBits]; m[p] = v; if (v + other > FL2_LCLP_MAX) { vf_stat("lclp_exceeded"); if (ec != FL2_error_lclpMax_exceeded) vf_viol("lclp", "lc+lp = %zu: %s", v + other, ec ? enm(e) : "accepted"); return; } }
    if (ec) { vf_viol("valid-refused", "parameter %d=%zu: %s (%s)", p, v, enm(e), log.c_str()); return; }
    if (p == FL2_p_compressionLevel) { level_model(m, (int)v, (int)m[FL2_p_highCompression]); level_rest(m); vf_stat("levels"); }
    else if (p == FL2_p_highCompression) { m[p] = v; level_model(m, (int)std::min<size_t>(m[FL2_p_compressionLevel], v ? FL2_maxHighCLevel() : FL2_maxCLevel()), (int)v); level_rest(m); }
    else if (p == FL2_p_dictionaryLog) m[FL2_p_dictionarySize] = (size_t)1 << v; else m[p] = v;
}
static Bytes some(Rng &r, size_t cap) { return gen_data(r, r.chance(20) ? r.below(100) : r.logsize(1, cap)); }
static bool light(const Model &m) { return m.at(FL2_p_dictionarySize) <= (24u << 20); }
// the settings as the stream shows them
static void check_frame(const Bytes &out, const Bytes &in, Model &m, u8 ctxprop, bool oneshot, const std::string &log) {
    bool omit = m[FL2_p_omitProperties] != 0, hash = m.count(HASHP) && m[HASHP] && !omit; FrameResult F = judge(out, omit, ctxprop);
    if (F.st != REF_OK || F.r.out != in) { vf_viol("content", "the stream does not decode to the input: %s (%s)", F.why.c_str(), log.c_str()); return; }
    if (!omit && F.has_hash != hash) vf_viol("hash-option", "checksum flag %d, option %d (%s)", F.has_hash, hash, log.c_str());
    if (F.consumed != out.size()) vf_viol("hash-option", "stream ends at %zu of %zu (%s)", F.consumed, out.size(), log.c_str());
    size_t lp = m[FL2_p_literalPosBits], lc = std::min<size_t>(m[FL2_p_literalCtxBits], 4 - lp), pb = m[FL2_p_posBits]; for (auto &k : F.r.chunks) if (k.has_props && k.props != (pb * 5 + lp) * 9 + lc) { vf_viol("lclppb", "props byte %u for lc=%zu lp=%zu pb=%zu (%s)", k.props, lc, lp, pb, log.c_str()); break; }
    size_t set = m[FL2_p_dictionarySize], announced = ref_dict_size(omit ? ctxprop : out[0] & 0x3F), need = std::min(in.size(), set), lim = 0; for (int q = 0; q <= 40; ++q) { lim = ref_dict_size((u8)q); if (lim >= set) break; }
    if (announced > lim) vf_viol("dictionary-property", "dictionary of %zu announced, setting %zu (%s)", announced, set, log.c_str());
    if (F.r.max_dist > set) vf_viol("dictionary-distance", "distance %zu, setting %zu (%s)", F.r.max_dist, set, log.c_str());
    size_t iv = m[FL2_p_resetInterval], pos = 0, last = 0, gap = 0, nres = 0; for (auto &k : F.r.chunks) { bool d = k.control == 1 || k.control >= 0xE0; if (d) { ++nres; gap = std::max(gap, pos - last); last = pos; } pos += k.unpack; } gap = std::max(gap, pos - last);
    if (iv && gap > iv * set) vf_viol("reset-interval", "%zu bytes without a dictionary reset, dictionary %zu, interval %zu (%s)", gap, set, iv, log.c_str()); if (iv && in.size() > iv * set) vf_stat("interval_seen");
    if ((!iv || in.size() <= iv * set - set) && m[FL2_p_overlapFraction] && nres > 1) vf_viol("reset-interval", "%zu dictionary resets in %zu bytes, dictionary %zu, interval %zu (%s)", nres, in.size(), set, iv, log.c_str());
    vf_stat("frames_checked"); (void)need; (void)oneshot;
}
static void life(Rng &r, bool slow) {
    FL2_CCtx *c = r.chance(50) ? FL2_createCCtxMt((unsigned)r.range(1, 3)) : FL2_createCStreamMt((unsigned)r.range(1, 3), (int)r.below(2)); if (!c) return; Model m = defaults(); std::string log; verify(c, m, "new"); bool stream = false; int ops = (int)r.range(10, 40);
    for (int k = 0; k < ops; ++k) {
        int op = (int)r.below(30);
        if (op < 24) { Model old = m; rnd_set(c, m, r, stream, log); verify(c, m, log); }
        else if (op == 24 && !stream) { if (!light(m)) { FL2_CCtx_setParameter(c, FL2_p_dictionarySize, 1 << 20); m[FL2_p_dictionarySize] = 1 << 20; } m[FL2_p_searchDepth] = std::min<size_t>(m[FL2_p_searchDepth], 60); FL2_CCtx_setParameter(c, FL2_p_searchDepth, m[FL2_p_searchDepth]);
            int lvl = r.chance(40) ? (int)r.range(1, 4) : 0; if (lvl && m[FL2_p_highCompression]) lvl = 1; Bytes in = some(r, slow ? 20000 : 100000); if (!slow && r.chance(12) && m[FL2_p_dictionarySize] <= (1u << 21)) in = gen_data(r, (5u << 20) + r.below(1 << 20)); if (lvl) { level_model(m, lvl, (int)m[FL2_p_highCompression]); level_rest(m); }
            Bytes o(FL2_compressBound(in.size())); size_t z = FL2_compressCCtx(c, o.data(), o.size(), in.data(), in.size(), lvl); log += " oneshot"; log += std::to_string(lvl); vf_info("%s", log.c_str()); if (FL2_isError(z)) { vf_viol("compress", "%s (%s)", enm(z), log.c_str()); break; } o.resize(z); verify(c, m, log); check_frame(o, in, m, FL2_getCCtxDictProp(c), true, log); }
        else if (op == 25 && !stream && light(m)) { int lvl = r.chance(40) ? (int)r.range(1, 4) : 0; if (lvl && m[FL2_p_highCompression]) lvl = 1; if (lvl) { level_model(m, lvl, (int)m[FL2_p_highCompression]); level_rest(m); } size_t e = FL2_initCStream(c, lvl); log += " init" + std::to_string(lvl); if (FL2_isError(e)) { vf_viol("init", "%s (%s)", enm(e), log.c_str()); break; } stream = true; verify(c, m, log); }
        else if (op == 26 && stream) { FL2_cancelCStream(c); stream = false; log += " cancel"; }
        else if (op >= 27 && stream) { // finish it; lc, lp, pb as they are now
            Bytes in = some(r, slow ? 20000 : 300000); if (!slow && r.chance(10) && m[FL2_p_dictionarySize] <= (1u << 21)) in = gen_data(r, (5u << 20) + r.below(1 << 20)); COpt o; o.in_max = std::max<size_t>(1000, in.size() / 100); o.out_max = 100000; o.flush_pct = 0; CRun R = cstream_run(c, in, r, o); stream = false; log += " stream"; if (R.err || !R.ended) { vf_viol("stream", "%s (%s)", R.err ? enm(R.err) : "no end", log.c_str()); break; } verify(c, m, log); check_frame(R.out, in, m, FL2_getCCtxDictProp(c), false, log); }
    }
    vf_distinct("histories", hash_bytes((const u8 *)log.data(), log.size())); static int shown; if (shown++ < 2) vf_sample("%.380s", log.c_str()); FL2_freeCCtx(c);
}
// lc, lp, pb changed between flushed parts of one stream
static void segments(Rng &r) {
    FL2_CStream *f = FL2_createCStreamMt((unsigned)r.range(1, 3), (int)r.below(2)); FL2_CStream_setParameter(f, FL2_p_compressionLevel, r.range(1, 3)); FL2_CStream_setParameter(f, FL2_p_dictionarySize, 1 << 20); FL2_initCStream(f, 0); Bytes out, all; std::vector<std::pair<size_t, unsigned>> segs; int n = (int)r.range(2, 6);
    for (int k = 0; k < n; ++k) { unsigned lc, lp, pb = (unsigned)r.below(5); do { lc = (unsigned)r.below(5); lp = (unsigned)r.below(5); } while (lc + lp > 4); size_t e1 = FL2_CStream_setParameter(f, FL2_p_literalCtxBits, 0), e2 = FL2_CStream_setParameter(f, FL2_p_literalPosBits, lp), e3 = FL2_CStream_setParameter(f, FL2_p_literalCtxBits, lc), e4 = FL2_CStream_setParameter(f, FL2_p_posBits, pb);
        if (FL2_isError(e1) || FL2_isError(e2) || FL2_isError(e3) || FL2_isError(e4)) { vf_viol("lclppb-stream", "refused between flushed parts: %s %s %s %s", enm(e1), enm(e2), enm(e3), enm(e4)); break; }
        Bytes in = gen_data(r, r.range(1, 150000), (int)r.pick({ 0, 1, 2, 3 })); all.insert(all.end(), in.begin(), in.end()); segs.push_back({ all.size(), (pb * 5 + lp) * 9 + lc }); FL2_inBuffer ib = { in.data(), in.size(), 0 }; int guard = 0; while (ib.pos < ib.size && ++guard < 1000) { Bytes b(1 << 20); FL2_outBuffer ob = { b.data(), b.size(), 0 }; size_t e = FL2_compressStream(f, &ob, &ib); if (FL2_isError(e)) { vf_viol("stream", "%s", enm(e)); FL2_freeCStream(f); return; } out.insert(out.end(), b.begin(), b.begin() + ob.pos); }
        for (guard = 0; guard < 1000; ++guard) { Bytes b(1 << 20); FL2_outBuffer ob = { b.data(), b.size(), 0 }; size_t e = k + 1 < n ? FL2_flushStream(f, &ob) : FL2_endStream(f, &ob); if (FL2_isError(e)) { vf_viol("stream", "%s", enm(e)); FL2_freeCStream(f); return; } out.insert(out.end(), b.begin(), b.begin() + ob.pos); if (!e) break; } }
    FL2_freeCStream(f); FrameResult F = judge(out); if (F.st != REF_OK || F.r.out != all) { vf_viol("content", "after changes of lc, lp, pb: %s", F.why.c_str()); return; }
    size_t pos = 0, s = 0; for (auto &k : F.r.chunks) { while (s < segs.size() && pos >= segs[s].first) ++s; if (k.has_props && s < segs.size()) { vf_stat("segment_props"); if (k.props != segs[s].second) { vf_viol("lclppb-stream", "props byte %u in a part compressed with %u", k.props, segs[s].second); break; } } pos += k.unpack; }
    vf_stat("segment_streams"); vf_distinct("nontrivial", hash_bytes(out));
}
static Bytes comp(FL2_CCtx *c, const Bytes &in, int lvl = 0) { Bytes o(FL2_compressBound(in.size())); size_t z = FL2_compressCCtx(c, o.data(), o.size(), in.data(), in.size(), lvl); if (FL2_isError(z)) { vf_viol("compress", "%s", enm(z)); z = 0; } o.resize(z); return o; }
// a level is its published parameters
static void levels(Rng &r, bool slow) {
    int high = r.chance(25), lvl = slow ? (int)r.range(1, high ? 2 : 5) : (int)r.range(1, high ? 4 : 8); unsigned th = (unsigned)r.range(1, 2); size_t n = r.range(1000, slow ? 30000 : r.chance(20) ? 3000000 : 200000); if (high || lvl > 6) n = std::min<size_t>(n, 400000); Bytes in = gen_data(r, n);
    FL2_CCtx *a = FL2_createCCtxMt(th), *b = FL2_createCCtxMt(th), *d = FL2_createCCtxMt(th); FL2_compressionParameters q; FL2_getLevelParameters(lvl, high, &q);
    FL2_CCtx_setParameter(a, FL2_p_highCompression, high); FL2_CCtx_setParameter(a, FL2_p_compressionLevel, lvl); FL2_CCtx_setParameter(d, FL2_p_highCompression, high);
    FL2_CCtx_setParameter(b, FL2_p_dictionarySize, q.dictionarySize); FL2_CCtx_setParameter(b, FL2_p_overlapFraction, q.overlapFraction); FL2_CCtx_setParameter(b, FL2_p_hybridChainLog, q.chainLog); FL2_CCtx_setParameter(b, FL2_p_hybridCycles, (size_t)1 << q.cyclesLog); FL2_CCtx_setParameter(b, FL2_p_searchDepth, q.searchDepth); FL2_CCtx_setParameter(b, FL2_p_fastLength, q.fastLength); FL2_CCtx_setParameter(b, FL2_p_divideAndConquer, q.divideAndConquer); FL2_CCtx_setParameter(b, FL2_p_strategy, q.strategy);
    Bytes x = comp(a, in), y = comp(b, in), z = comp(d, in, lvl); vf_stat("level_comparisons"); vf_distinct("nontrivial", mix64(hash_bytes(x), lvl, high));
    if (x != y) vf_viol("level-parameters", "level %d%s and its published parameters give other bytes (%zu and %zu)", lvl, high ? " high" : "", x.size(), y.size()); if (x != z) vf_viol("level-argument", "level %d%s set, and given to FL2_compressCCtx, give other bytes (%zu and %zu)", lvl, high ? " high" : "", x.size(), z.size());
    Bytes w = comp(d, in, 0); if (w != z) { vf_stat("same_context_bytes_differ"); if (w.size() > z.size() + z.size() / 50 + 64) vf_viol("level-zero", "level 0 does not keep the settings: %zu and %zu bytes", z.size(), w.size()); }
    if (!high) { Bytes s(FL2_compressBound(n)); size_t c = th == 1 && r.chance(50) ? FL2_compress(s.data(), s.size(), in.data(), n, lvl) : FL2_compressMt(s.data(), s.size(), in.data(), n, lvl, th); if (FL2_isError(c)) vf_viol("compress", "%s", enm(c)); else { s.resize(c); if (s != x) vf_viol("level-argument", "FL2_compress[Mt] at level %d gives other bytes", lvl); } }
    // stream: level through init or set before
    FL2_CStream *f = FL2_createCStreamMt(th, 0), *g = FL2_createCStreamMt(th, 0); FL2_CStream_setParameter(f, FL2_p_highCompression, high); FL2_CStream_setParameter(g, FL2_p_highCompression, high); FL2_CStream_setParameter(g, FL2_p_compressionLevel, lvl); if (q.dictionarySize <= (16u << 20)) { FL2_initCStream(f, lvl); FL2_initCStream(g, 0); u64 sd = r.next(); COpt o; o.flush_pct = 0; Rng r1(sd), r2(sd); CRun A = cstream_run(f, in, r1, o), B = cstream_run(g, in, r2, o); if (A.err || B.err) vf_viol("stream", "%s", enm(A.err ? A.err : B.err)); else if (A.out != B.out) vf_viol("level-argument", "level %d%s given to FL2_initCStream and set before give other bytes", lvl, high ? " high" : ""); vf_stat("level_streams"); } FL2_freeCStream(f); FL2_freeCStream(g);
    FL2_freeCCtx(a); FL2_freeCCtx(b); FL2_freeCCtx(d);
}
// text with many repeated phrases at all distances: every search parameter has something to decide
static Bytes rich(Rng &r, size_t n) { std::vector<Bytes> w; for (int i = 0; i < 600; ++i) { Bytes b(r.range(2, 14)); for (auto &x : b) x = (u8)('a' + r.below(10)); w.push_back(b); } std::vector<Bytes> ph; for (int i = 0; i < 500; ++i) { Bytes b; int k = (int)r.range(2, 40); while (k--) { auto &q = w[r.below(r.below(600) + 1)]; b.insert(b.end(), q.begin(), q.end()); } ph.push_back(b); }
    Bytes o; while (o.size() < n) { if (r.chance(70)) { auto &q = ph[r.below(ph.size())]; size_t a = r.below(q.size()), l = r.range(1, q.size() - a); o.insert(o.end(), q.begin() + a, q.begin() + a + l); } else { auto &q = w[r.below(w.size())]; o.insert(o.end(), q.begin(), q.end()); } } o.resize(n); return o; }
static void effect(Rng &r) {
    static const struct { FL2_cParameter p; size_t a, b; FL2_strategy st; size_t n; const char *name; } E[] = { { FL2_p_strategy, 0, 1, FL2_opt, 150000, "strategy" }, { FL2_p_strategy, 1, 2, FL2_opt, 150000, "strategy" }, { FL2_p_searchDepth, 6, 254, FL2_opt, 150000, "searchDepth" }, { FL2_p_searchDepth, 6, 12, FL2_fast, 150000, "searchDepth" }, { FL2_p_fastLength, 6, 273, FL2_opt, 150000, "fastLength" }, { FL2_p_fastLength, 6, 273, FL2_ultra, 150000, "fastLength" }, { FL2_p_hybridChainLog, 4, 14, FL2_ultra, 150000, "hybridChainLog" }, { FL2_p_hybridCycles, 1, 64, FL2_ultra, 150000, "hybridCycles" }, { FL2_p_overlapFraction, 0, 14, FL2_opt, 2300000, "overlapFraction" }, { FL2_p_overlapFraction, 1, 5, FL2_fast, 2300000, "overlapFraction" }, { FL2_p_dictionarySize, 1 << 20, 2 << 20, FL2_opt, 2300000, "dictionarySize" }, { FL2_p_resetInterval, 1, 3, FL2_fast, 2300000, "resetInterval" }, { FL2_p_divideAndConquer, 0, 1, FL2_opt, 1000000, "divideAndConquer" },
        { FL2_p_literalCtxBits, 0, 3, FL2_opt, 50000, "lc" }, { FL2_p_literalPosBits, 0, 1, FL2_opt, 50000, "lp" }, { FL2_p_posBits, 0, 2, FL2_opt, 50000, "pb" } };
    auto &e = E[r.below(sizeof E / sizeof *E)]; Bytes in = rich(r, e.n + r.below(1000)); Bytes o[2];
    for (int k = 0; k < 2; ++k) { FL2_CCtx *c = FL2_createCCtx(); FL2_CCtx_setParameter(c, FL2_p_compressionLevel, 5); FL2_CCtx_setParameter(c, FL2_p_strategy, e.st); FL2_CCtx_setParameter(c, FL2_p_dictionarySize, 1 << 20); size_t z = FL2_CCtx_setParameter(c, e.p, k ? e.b : e.a); if (FL2_isError(z)) vf_viol("valid-refused", "%s", enm(z)); o[k] = comp(c, in); FL2_freeCCtx(c); }
    std::string key = std::string("effect_") + e.name; vf_stat(key.c_str()); vf_stat("effects"); vf_distinct("nontrivial", hash_bytes(o[0]));
    if (o[0] == o[1]) vf_viol("no-effect", "%s %zu and %zu give the same bytes (strategy %d, %zu bytes)", e.name, e.a, e.b, (int)e.st, in.size());
    // directions that hold with a wide margin for this kind of data
    double ra = (double)o[1].size() / o[0].size(); char k2[60]; snprintf(k2, sizeof k2, "ratio_%s_%zu_%zu_permille", e.name, e.a, e.b); vf_max(k2, (u64)(ra * 1000));
}
static void names() {
    std::set<std::string> seen; int maxc = FL2_error_timedOut;
    for (int k = 1; k <= maxc; ++k) { size_t c = (size_t)0 - (size_t)k; const char *n = FL2_getErrorName(c); if (!FL2_isError(c)) vf_viol("isError", "code %d is not an error", k); if ((int)FL2_getErrorCode(c) != k) vf_viol("errorCode", "code %d becomes %d", k, (int)FL2_getErrorCode(c)); if (!n || !*n || !strcmp(n, "Unspecified error code") || !seen.insert(n).second) vf_viol("errorName", "code %d: %s", k, n ? n : "NULL"); const char *s = FL2_getErrorString((FL2_ErrorCode)k); if (!s || strcmp(s, n)) vf_viol("errorName", "name and string of code %d differ", k); if (FL2_isTimedOut(c) != (k == FL2_error_timedOut)) vf_viol("isTimedOut", "code %d", k); vf_stat("codes"); }
    for (size_t c : { (size_t)0, (size_t)1, (size_t)20, (size_t)0x7fffffff, (size_t)0xffffffff, (size_t)0xfffffff0, (size_t)1 << 32, ((size_t)1 << 63) - 1, (size_t)1 << 63, (size_t)-1000, (size_t)-FL2_error_maxCode }) { if (FL2_isError(c) || FL2_getErrorCode(c) != FL2_error_no_error || FL2_isTimedOut(c)) vf_viol("isError", "%zu is taken for an error", c); const char *n = FL2_getErrorName(c); if (!n || !*n || strcmp(n, FL2_getErrorString(FL2_error_no_error))) vf_viol("errorName", "the name for %zu is %s", c, n ? n : "NULL"); }
    for (int h = 0; h < 2; ++h) { int mx = h ? FL2_maxHighCLevel() : FL2_maxCLevel(); for (int l : { -1, mx + 1, mx + 2, 1000, INT_MAX, INT_MIN }) { FL2_compressionParameters q; size_t e = FL2_getLevelParameters(l, h, &q); if (err_of(e) != FL2_error_parameter_outOfBound) vf_viol("level-bound", "FL2_getLevelParameters(%d, %d): %s", l, h, FL2_isError(e) ? enm(e) : "accepted"); }
        for (int l = 1; l <= mx; ++l) { FL2_compressionParameters q; FL2_getLevelParameters(l, h, &q); bool ok = q.dictionarySize >= FL2_DICTSIZE_MIN && q.dictionarySize <= FL2_DICTSIZE_MAX && q.overlapFraction <= FL2_BLOCK_OVERLAP_MAX && q.searchDepth >= FL2_SEARCH_DEPTH_MIN && q.searchDepth <= FL2_SEARCH_DEPTH_MAX && q.fastLength >= FL2_FASTLENGTH_MIN && q.fastLength <= FL2_FASTLENGTH_MAX && q.chainLog >= FL2_CHAINLOG_MIN && q.chainLog <= FL2_CHAINLOG_MAX && ((size_t)1 << q.cyclesLog) <= FL2_HYBRIDCYCLES_MAX && q.strategy <= FL2_ultra; if (!ok) vf_viol("level-table", "level %d%s has a parameter outside its range", l, h ? " high" : ""); if (h && q.dictionarySize != (size_t)1 << (19 + l)) vf_viol("level-table", "high level %d has a dictionary of %zu", l, q.dictionarySize); vf_stat("table_entries"); } }
}
// calls at the wrong moment
static void order(Rng &r) {
    bool dual = r.below(2); FL2_CStream *f = r.chance(50) ? FL2_createCStream() : FL2_createCStreamMt((unsigned)r.range(1, 3), dual); FL2_CStream_setParameter(f, FL2_p_compressionLevel, 1); std::string log; if (r.chance(30)) FL2_setCStreamTimeout(f, 1000);
    bool open = false, ended = false; Bytes in = gen_data(r, r.range(0, 60000)); size_t pending_unknown = 0;
    for (int k = 0, n = (int)r.range(4, 24); k < n; ++k) {
        u8 ob[600]; memset(ob, 0x77, sizeof ob); size_t osz = r.chance(50) ? sizeof ob : r.below(20); FL2_outBuffer o = { ob, osz, 0 }; FL2_inBuffer ib = { in.data(), in.size(), 0 }; FL2_dictBuffer db = { nullptr, 0 }; FL2_cBuffer cb = { nullptr, 0 }; size_t e = 0; const char *nm = ""; bool need = false; int op = (int)r.below(14);
        switch (op) {
        case 0: nm = "compressStream"; e = FL2_compressStream(f, r.chance(70) ? &o : nullptr, &ib); need = true; break;
        case 1: nm = "getDictionaryBuffer"; e = FL2_getDictionaryBuffer(f, &db); need = true; if (!FL2_isError(e) && db.size) { size_t a = r.below(std::min<size_t>(db.size, 5000) + 1); memset(db.dst, 'x', a); if (open) e = FL2_updateDictionary(f, a); } break;
        case 2: nm = "updateDictionary"; if (open) { nm = ""; break; } e = FL2_updateDictionary(f, 0); need = true; break;
        case 3: nm = "flushStream"; e = FL2_flushStream(f, r.chance(70) ? &o : nullptr); need = true; break;
        case 4: case 5: nm = "endStream"; e = FL2_endStream(f, r.chance(70) ? &o : nullptr); need = !ended; if (open && !FL2_isError(e)) { /* either ended or still pending */ } break;
        case 6: nm = "wait"; e = FL2_waitCStream(f); break;
        case 7: nm = "next"; e = FL2_getNextCompressedBuffer(f, &cb); if (!FL2_isError(e)) { volatile u8 s = 0; for (size_t i = 0; i < cb.size; ++i) s += ((const u8 *)cb.src)[i]; } break;
        case 8: nm = "copy"; e = FL2_copyCStreamOutput(f, &o); break;
        case 9: nm = "remaining"; e = FL2_remainingOutputSize(f); break;
        case 10: nm = "progress"; { unsigned long long q = 0; FL2_getCStreamProgress(f, &q); FL2_getCStreamProgress(f, nullptr); } break;
        case 11: nm = "cancel"; FL2_cancelCStream(f); open = false; /* the end may have been marked */ break;
        case 12: nm = "dictProp"; { u8 p = FL2_getCCtxDictProp(f); if (p > 40) vf_viol("order-prop", "property %u", p); FL2_estimateCStreamSize_usingCStream(f); FL2_getCCtxThreadCount(f); } break;
        default: if (r.chance(50)) { nm = "init"; e = FL2_initCStream(f, 0); if (FL2_isError(e)) vf_viol("order-init", "%s:%s", enm(e), log.c_str()); open = true; ended = false; } else { nm = "timeout"; e = FL2_setCStreamTimeout(f, (unsigned)r.pick({ 0, 1000 })); } break;
        }
        log += " "; log += nm; if (FL2_isError(e)) log += "!"; vf_stat("order_calls");
        if (need && !open) { vf_stat("out_of_order_refused"); int ec = err_of(e); if (ec != FL2_error_init_missing && ec != FL2_error_stage_wrong) vf_viol("order", "FL2_%s without an initialised stream: %s (%s)", nm, ec ? enm(e) : "accepted", log.c_str()); if (op == 0 && ib.pos) vf_viol("order", "input consumed without a stream (%s)", log.c_str()); }
        if (o.pos > osz) vf_viol("order-position", "%s (%s)", nm, log.c_str()); for (size_t i = o.pos; i < sizeof ob; ++i) if (ob[i] != 0x77) { vf_viol("order-write", "%s wrote past its position (%s)", nm, log.c_str()); break; }
        // whether endStream marked the end is seen from outside by the parameters being settable again
        if ((op == 4 || op == 5) && open && !FL2_isError(e)) { size_t s = FL2_CStream_setParameter(f, FL2_p_searchDepth, 30); if (!FL2_isError(s)) { open = false; ended = true; vf_stat("streams_ended"); } }
        if (FL2_isError(e) && open && err_of(e) == FL2_error_buffer) open = false;
    }
    FL2_freeCStream(f); vf_distinct("nontrivial", hash_bytes((const u8 *)log.data(), log.size()));
    // decompression
    FL2_DStream *d = r.chance(50) ? FL2_createDStream() : FL2_createDStreamMt((unsigned)r.range(1, 3)); log.clear(); Bytes c(FL2_compressBound(in.size())); size_t z = FL2_compress(c.data(), c.size(), in.data(), in.size(), 1); if (FL2_isError(z)) z = 0; size_t pos = 0;
    for (int k = 0, n = (int)r.range(3, 15); k < n; ++k) { u8 ob[600]; size_t e = 0; FL2_outBuffer o = { ob, r.below(601), 0 }; FL2_inBuffer ib = { c.data() + pos, std::min<size_t>(z - pos, r.logsize(1, 3000)), 0 };
        switch (r.below(9)) { case 0: e = FL2_initDStream(d); pos = 0; log += " init"; break; case 1: { u8 p = (u8)(r.chance(50) ? r.below(20) : r.next()); if (r.chance(60)) break; e = FL2_initDStream_withProp(d, p); pos = 0; log += " initp"; if (((p & 0x3F) > 40) && !FL2_isError(e)) { vf_viol("order-prop", "property byte %u accepted", p); } e = FL2_initDStream(d); break; } case 2: FL2_cancelDStream(d); e = FL2_initDStream(d); pos = 0; log += " cancel"; break; case 3: e = FL2_waitDStream(d); log += " wait"; break; case 4: FL2_getDStreamProgress(d); log += " progress"; break; case 5: FL2_setDStreamMemoryLimitMt(d, r.logsize(1, 1 << 28)); break;
        default: e = FL2_decompressStream(d, &o, &ib); pos += ib.pos; log += " dec"; if (o.pos > o.size || ib.pos > ib.size) vf_viol("order-position", "decompressStream"); if (e == 0 || FL2_isError(e)) { FL2_initDStream(d); pos = 0; } }
        vf_stat("order_calls"); }
    FL2_freeDStream(d);
    FL2_DCtx *dc = FL2_createDCtx(); for (int p : { 41, 63, 41 | 0x40, 255, 0x3F | 0x80 }) { size_t e = FL2_initDCtx(dc, (u8)p); if (!FL2_isError(e)) vf_viol("order-prop", "FL2_initDCtx accepts property byte %d", p); vf_stat("bad_props"); } FL2_freeDCtx(dc);
    FL2_freeCCtx(nullptr); FL2_freeCStream(nullptr); FL2_freeDCtx(nullptr); FL2_freeDStream(nullptr);
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv); bool slow = a.extra.find("slow") != std::string::npos;
    vf_loop(a, [&](u64 i, Rng &r) { if (i < 2) names(); int k = (int)r.below(20); if (k < 9) life(r, slow); else if (k < 12) order(r); else if (k < 14) segments(r); else if (k < 17) levels(r, slow); else if (!slow) effect(r); else order(r); });
    return 0;
}
