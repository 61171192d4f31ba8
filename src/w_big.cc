// C01, C02, C18 with dictionaries above 64 MB: the match table has another layout there (radix_struct.c), distances and positions need more bits.
#include "declib.h"
static std::vector<RefOp> ops;
static const size_t LIMIT = (size_t)1 << 26;
struct Plant { size_t q, d, l; };
// noise with copies from anywhere before, short and very long
static Bytes far_data(Rng &r, size_t n) {
    Bytes d(n); unsigned mask = (1u << r.range(5, 7)) - 1; for (size_t i = 0; i + 8 <= n; i += 8) { u64 v = r.next(); for (int k = 0; k < 8; ++k) d[i + k] = (u8)((v >> (8 * k)) & mask); }
    size_t at = r.range(1, 50000); while (at + 10 < n) { size_t l = r.chance(60) ? r.logsize(2, 800) : r.logsize(800, 3000000), dist = r.chance(15) ? r.range(1, 300) : r.chance(30) ? at - r.below(std::min<size_t>(at, 1 << 20)) : r.logsize(1, at); dist = std::max<size_t>(1, std::min(dist, at)); l = std::min(l, n - at); for (size_t i = 0; i < l; ++i) d[at + i] = d[at + i - dist]; at += l + (r.chance(50) ? r.below(100) : r.logsize(1, 200000)); }
    if (r.chance(50)) { size_t l = r.range(2, 400); for (size_t i = n - l; i < n; ++i) d[i] = d[i - (n - l)]; }   // the last bytes repeat the first
    return d; }
static Params big_params(Rng &r, int maxlevel) { Params p; p.level = (int)r.range(1, maxlevel); p.dict = r.chance(40) ? LIMIT * 2 : LIMIT + 1 + r.below(20u << 20); p.add(FL2_p_dictionarySize, p.dict); if (r.chance(40)) p.add(FL2_p_searchDepth, r.range(6, 254)); if (r.chance(30)) p.add(FL2_p_divideAndConquer, r.below(2)); if (r.chance(30)) p.add(FL2_p_strategy, p.strategy = (unsigned)r.below(3)); if (r.chance(30)) p.add(FL2_p_fastLength, r.range(6, 273)); if (r.chance(20)) p.add(FL2_p_bufferResize, r.range(0, 4)); return p; }
static bool same(const char *what, const Bytes &in, const u8 *o, size_t z) { if (FL2_isError(z)) { vf_viol("decode", "%s: %s", what, enm(z)); return false; } if (z != in.size() || memcmp(o, in.data(), z)) { size_t i = 0; while (i < z && i < in.size() && o[i] == in[i]) ++i; vf_viol("mismatch", "%s: %zu bytes, expected %zu, different at %zu", what, z, in.size(), i); return false; } vf_stat("decodings_compared"); return true; }
static void verify(const Bytes &c, const Bytes &in, Rng &r) {
    FrameResult F = judge(c); if (F.st != REF_OK) { vf_viol("ref-reject", "independent decoder: %s after %zu of %zu bytes", F.why.c_str(), F.r.out.size(), in.size()); return; } if (!same("independent decoder", in, F.r.out.data(), F.r.out.size())) return;
    vf_max("max_distance", F.r.max_dist); if (F.r.max_dist > LIMIT) vf_stat("distances_above_64m"); F.r.out = Bytes();
    Bytes o(in.size()); int api = (int)r.below(4); size_t z = oneshot(api, (unsigned)r.range(2, 8), o.data(), o.size(), c.data(), c.size()); if (!same("one-shot decompression", in, o.data(), z)) return; o = Bytes();
    FL2_DStream *d = r.chance(50) ? FL2_createDStream() : FL2_createDStreamMt((unsigned)r.range(2, 4)); DOpt q; q.in_max = 3 << 20; q.out_max = 5 << 20; DResult D = dstream_run(d, c, r, q); FL2_freeDStream(d); if (!D.ended) vf_viol("decode", "stream: %s", FL2_isError(D.code) ? enm(D.code) : "not ended"); else same("stream decompression", in, D.out.data(), D.out.size());
}
static void one(u64 idx, Rng &r) {
    Params p = big_params(r, 3); unsigned thr = (unsigned)r.range(2, 8); size_t n = p.dict > LIMIT + (21u << 20) ? LIMIT + 1 + r.below(30u << 20) : p.dict + r.below(15u << 20) - (r.chance(50) ? r.below(std::min<size_t>(p.dict - LIMIT, 1 << 20)) : 0); if (n <= LIMIT) n = LIMIT + 5; Bytes in = far_data(r, n); vf_info("one-shot %s threads=%u size=%zu", p.desc().c_str(), thr, n);
    FL2_CCtx *c = FL2_createCCtxMt(thr); if (!c) return; size_t e = apply_params(c, p); if (FL2_isError(e)) { vf_viol("param", "%s", enm(e)); FL2_freeCCtx(c); return; } Bytes o(FL2_compressBound(n)); size_t z = FL2_compressCCtx(c, o.data(), o.size(), in.data(), n, 0); FL2_freeCCtx(c); if (FL2_isError(z)) { vf_viol("compress-error", "%s", enm(z)); return; } o.resize(z);
    verify(o, in, r); vf_stat("large_dictionaries"); vf_distinct("nontrivial", hash_bytes(o)); if (idx < 2) vf_sample("one-shot %s threads=%u: %zu -> %zu", p.desc().c_str(), thr, n, z);
}
static void stream(u64 idx, Rng &r) {
    Params p = big_params(r, 2); p.dict = p.set[0].second = LIMIT + 1 + r.below(6u << 20); if (r.chance(60)) p.add(FL2_p_overlapFraction, r.below(15)); if (r.chance(40)) p.add(FL2_p_resetInterval, r.range(0, 2)); unsigned thr = (unsigned)r.range(3, 8); int dual = (int)r.below(2); size_t n = r.chance(30) ? r.range(LIMIT / 2, p.dict) : p.dict + r.range(1, 40u << 20); Bytes in = far_data(r, n); COpt o; o.in_max = 8 << 20; o.out_max = 4 << 20; o.flush_pct = r.chance(40) ? 4 : 0; vf_info("stream %s threads=%u dual=%d size=%zu", p.desc().c_str(), thr, dual, n);
    FL2_CStream *f = FL2_createCStreamMt(thr, dual); if (!f) return; size_t e = apply_params(f, p); if (!FL2_isError(e)) e = FL2_initCStream(f, 0); if (FL2_isError(e)) { vf_viol("init", "%s", enm(e)); FL2_freeCStream(f); return; } CRun R = cstream_run(f, in, r, o); FL2_freeCStream(f); if (R.err || !R.ended) { vf_viol("stream-error", "%s: %s", R.op, R.err ? enm(R.err) : "not ended"); return; }
    verify(R.out, in, r); vf_stat("large_dictionaries"); vf_stat("large_flushes", R.flushes.size()); vf_distinct("nontrivial", hash_bytes(R.out)); if (idx < 2) vf_sample("stream %s threads=%u dual=%d: %zu -> %zu", p.desc().c_str(), thr, dual, n, R.out.size());
}
// repeats planted in noise, at all distances: one block, one-shot
static void plants(u64 idx, Rng &r) {
    Params p; p.level = (int)r.range(1, 5); p.dict = LIMIT + (24u << 20); p.add(FL2_p_dictionarySize, p.dict); if (r.chance(30)) p.add(FL2_p_strategy, r.below(3)); if (r.chance(40)) p.add(FL2_p_searchDepth, r.range(42, 254)); if (r.chance(30)) p.add(FL2_p_divideAndConquer, r.below(2)); unsigned thr = (unsigned)r.range(3, 8); size_t n = LIMIT + 1 + r.below(8u << 20); Bytes in(n); for (size_t i = 0; i < n; i += 8) { u64 v = r.next() & 0x7F7F7F7F7F7F7F7Full; memcpy(&in[i], &v, std::min<size_t>(8, n - i)); }
    std::vector<Plant> pl; size_t at = r.range(300, 3000); while (at + 1200 < n - 400) { size_t l = r.chance(70) ? r.range(40, 120) : r.range(120, 1000), d = r.chance(40) ? r.range(l, at) : r.logsize(l, at); if (r.chance(10)) d = at; d = std::min(d, at); if (d >= l) { for (size_t i = 0; i < l; ++i) in[at + i] = in[at - d + i]; if (in[at + l] == in[at - d + l]) in[at + l] ^= 1; pl.push_back({ at, d, l }); } at += l + r.logsize(100, 60000); }
    vf_info("planted %s threads=%u size=%zu", p.desc().c_str(), thr, n); FL2_CCtx *c = FL2_createCCtxMt(thr); if (!c) return; size_t e = apply_params(c, p); if (FL2_isError(e)) { vf_viol("param", "%s", enm(e)); FL2_freeCCtx(c); return; } Bytes o(FL2_compressBound(n)); size_t z = FL2_compressCCtx(c, o.data(), o.size(), in.data(), n, 0); FL2_freeCCtx(c); if (FL2_isError(z)) { vf_viol("compress-error", "%s", enm(z)); return; } o.resize(z);
    ops.clear(); ref_trace = &ops; FrameResult F = judge(o); ref_trace = nullptr; if (F.st != REF_OK || F.r.out != in) { vf_viol("ref-reject", "%s", F.st != REF_OK ? F.why.c_str() : "other content"); return; }
    std::vector<std::pair<size_t, size_t>> cover; for (auto &q : ops) if (q.len >= 8) cover.push_back({ q.pos, q.pos + q.len }); ops = std::vector<RefOp>(); size_t lost = 0, far = 0;
    for (auto &x : pl) { size_t got = 0; for (auto j = std::lower_bound(cover.begin(), cover.end(), std::make_pair(x.q > 300 ? x.q - 300 : 0, (size_t)0)); j != cover.end() && j->first < x.q + x.l; ++j) { size_t a = std::max(j->first, x.q), b = std::min(j->second, x.q + x.l); if (b > a) got += b - a; } if (x.d > LIMIT) ++far; if (got < x.l - std::min<size_t>(x.l / 4, 16 + x.l / 16)) { ++lost; if (lost <= 3) vf_info("plant at %zu, length %zu, distance %zu: %zu bytes covered", x.q, x.l, x.d, got); } }
    if (lost > pl.size() / 1000) vf_viol("match-lost", "%zu of %zu repeats were not coded as matches (dictionary %zu)", lost, pl.size(), p.dict); vf_stat("large_plants_in_reach", pl.size()); vf_stat("plants_beyond_64m", far); vf_stat("large_dictionaries"); vf_distinct("nontrivial", hash_bytes(o)); if (idx < 1) vf_sample("planted %s: %zu in reach, %zu beyond 64 MB", p.desc().c_str(), pl.size(), far);
}
int main(int argc, char **argv) { Args a = vf_args(argc, argv); vf_loop(a, [&](u64 i, Rng &r) { if (a.mode == "stream") stream(i, r); else if (a.mode == "plants") plants(i, r); else one(i, r); }); return 0; }
