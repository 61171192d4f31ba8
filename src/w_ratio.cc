// C18: what was planted is found; sizes across configurations and against an independent encoder.
#include "declib.h"
static std::vector<RefOp> ops;
struct Ratio { Bytes out; FrameResult F; };
// one compression as the case asks for it
static bool squeeze(const Params &p, const Bytes &in, unsigned thr, int how, Rng &r, Bytes &out, size_t *overlap = nullptr, size_t *dict = nullptr, std::vector<size_t> *flushes = nullptr) {
    FL2_CCtx *c = how ? FL2_createCStreamMt(thr, how == 2) : FL2_createCCtxMt(thr); if (!c) { vf_viol("create", "creation failed"); return false; } size_t e = apply_params(c, p); if (FL2_isError(e)) { vf_viol("param", "%s", enm(e)); FL2_freeCCtx(c); return false; }
    size_t D = FL2_CCtx_getParameter(c, FL2_p_dictionarySize), of = FL2_CCtx_getParameter(c, FL2_p_overlapFraction); if (dict) *dict = D; if (overlap) *overlap = (D >> 4) * of; bool ok = true;
    if (!how) { out.resize(FL2_compressBound(in.size())); size_t z = FL2_compressCCtx(c, out.data(), out.size(), in.data(), in.size(), 0); if (FL2_isError(z)) { vf_viol("compress-error", "%s", enm(z)); ok = false; z = 0; } out.resize(z); }
    else { e = FL2_initCStream(c, 0); COpt o; o.in_max = std::max<size_t>(r.logsize(5000, 2 << 20), in.size() / 200 + 1); o.out_max = std::max<size_t>(r.logsize(5000, 2 << 20), in.size() / 200 + 1); o.flush_pct = 0; o.max_flush = 0; if (flushes) o.cuts = *flushes; CRun R = cstream_run(c, in, r, o); if (FL2_isError(e) || R.err || !R.ended) { vf_viol("stream-error", "%s: %s", R.op, R.err ? enm(R.err) : "not ended"); ok = false; } out = std::move(R.out); }
    FL2_freeCCtx(c); return ok;
}
static bool judged(const Bytes &out, const Bytes &in, FrameResult &F) { ops.clear(); ref_trace = &ops; F = judge(out); ref_trace = nullptr; if (F.st != REF_OK || F.r.out != in) { vf_viol("ref-reject", "%s", F.st != REF_OK ? F.why.c_str() : "other content"); return false; } return true; }
// ---- planted blocks
static void planted(u64 idx, Rng &r, bool slow) {
    Params p; p.high = r.chance(12); p.level = p.high ? (int)r.range(1, 2) : (int)r.range(1, slow ? 5 : 8); if (!p.high && r.chance(8)) p.level = 9; p.dict = r.chance(60) ? 1u << 20 : (1u << 20) + r.below(1u << 20); p.add(FL2_p_dictionarySize, p.dict);
    if (r.chance(60)) p.add(FL2_p_overlapFraction, r.range(0, 14)); if (r.chance(60)) p.add(FL2_p_resetInterval, r.range(0, 4)); if (r.chance(35)) p.add(FL2_p_strategy, r.below(3)); if (r.chance(30)) p.add(FL2_p_bufferResize, r.below(5)); if (r.chance(30)) p.add(FL2_p_searchDepth, r.range(42, 254)); if (r.chance(30)) p.add(FL2_p_divideAndConquer, r.below(2)); if (r.chance(20)) p.add(FL2_p_fastLength, r.range(20, 273)); if (r.chance(25)) p.add(FL2_p_hybridChainLog, r.range(4, 14));
    unsigned thr = r.chance(35) ? 1 : (unsigned)r.range(2, 8); int how = (int)r.below(3); size_t n = r.chance(50) ? r.range(150000, p.dict) : r.range(p.dict, slow ? 1600000 : 3600000);
    unsigned bits = (unsigned)r.range(4, 6); Bytes in(n); u8 base = (u8)r.below(64); for (u8 &b : in) b = (u8)(base + (r.next() & ((1u << bits) - 1)));
    struct Plant { size_t q, d, l; }; std::vector<Plant> pl; size_t at = r.range(300, 3000);
    while (at + 1200 < n) { size_t l = r.chance(70) ? r.range(40, 120) : r.range(120, 1000); size_t d = r.chance(20) ? r.range(l, l + 400) : r.logsize(l, std::min(at, p.dict + p.dict / 8)); if (r.chance(15)) d = at; if (r.chance(10)) d = r.range(1, 3) ? std::min<size_t>(at, p.dict - r.below(3)) : d; d = std::min(d, at); if (d >= l) { for (size_t i = 0; i < l; ++i) in[at + i] = in[at - d + i]; if (at + l < n && in[at + l] == in[at - d + l]) in[at + l] = (u8)(in[at + l] ^ 1); pl.push_back({ at, d, l }); } at += l + r.range(100, slow ? 3000 : 6000); }
    if (r.chance(50) && n > 5000) { size_t l = r.range(50, 300), d = r.range(l, std::min(n - l, p.dict)); if (pl.empty() || pl.back().q + pl.back().l < n - l) { for (size_t i = n - l; i < n; ++i) in[i] = in[i - d]; pl.push_back({ n - l, d, l }); vf_stat("plants_at_the_very_end"); } }
    std::vector<size_t> fl; if (how && r.chance(25)) { size_t c = 0; while ((c += r.range(20000, 600000)) < n && fl.size() < 12) fl.push_back(c); }
    vf_info("planted %s threads=%u how=%d size=%zu flushes=%zu", p.desc().c_str(), thr, how, n, fl.size()); Bytes out; size_t ov, D; FrameResult F; if (!squeeze(p, in, thr, how, r, out, &ov, &D, fl.empty() ? nullptr : &fl) || !judged(out, in, F)) return;
    std::vector<size_t> resets; { size_t pos = 0; for (auto &k : F.r.chunks) { if (k.control == 1 || k.control >= 0xE0) resets.push_back(pos); pos += k.unpack; } }
    std::vector<std::pair<size_t, size_t>> cover; for (auto &o : ops) if (o.len >= 8) cover.push_back({ o.pos, o.pos + o.len }); size_t lost = 0, reach = 0, beyond = 0; bool rough = false; for (auto &q : p.set) if (q.first == FL2_p_bufferResize && q.second < 2) rough = true;     // a smaller match buffer is documented to compress less
    // where blocks end: in the last bytes of a block, about as many as the search depth, only a few candidates are tried
    std::vector<size_t> ends; if (fl.empty()) { for (size_t k = 0; k < resets.size(); ++k) { size_t lim = k + 1 < resets.size() ? resets[k + 1] : n, e = resets[k] + D; while (e < lim) { ends.push_back(e); e += D - ov; } ends.push_back(lim); } } else { size_t pos = 0; for (auto &k : F.r.chunks) ends.push_back(pos += k.unpack); }
    size_t tail = 300 + (how ? 16 * (n / (D - ov) + 1) : 0), tails = 0; auto in_tail = [&](const Plant &x) { auto e = std::lower_bound(ends.begin(), ends.end(), x.q); return e != ends.end() && x.q + x.l + tail > *e; };
    for (auto &x : pl) {
        if (in_tail(x)) { ++tails; continue; }
        auto it = std::upper_bound(resets.begin(), resets.end(), x.q); size_t R = it == resets.begin() ? 0 : *(it - 1); if (x.q - R < x.d) { ++beyond; continue; } it = std::upper_bound(resets.begin(), resets.end(), x.q + x.l - 1); if (it != resets.begin() && *(it - 1) != R) { ++beyond; continue; }   // a reset in between
        bool first = x.q + x.l <= R + D, flushed = false; for (size_t c : fl) if (c >= R && c < x.q + x.l) flushed = true; if (!(first && !flushed) && x.d + x.l > ov) { ++beyond; continue; } ++reach;   // the window moves by blocks, and keeps the overlap
        size_t got = 0; for (auto j = std::lower_bound(cover.begin(), cover.end(), std::make_pair(x.q > 300 ? x.q - 300 : 0, (size_t)0)); j != cover.end() && j->first < x.q + x.l; ++j) { size_t a = std::max(j->first, x.q), b = std::min(j->second, x.q + x.l); if (b > a) got += b - a; }
        size_t want = x.l - std::min<size_t>(x.l / 4, 16 + x.l / 16); if (got < want) { ++lost; vf_stat("plants_missed"); if (vf_verbose && lost <= 3) { fprintf(stderr, "plant %zu len %zu dist %zu\n", x.q, x.l, x.d); for (auto &o : ops) if (o.pos + o.len > x.q && o.pos < x.q + x.l) fprintf(stderr, "   pos +%zd len %u dist %zu\n", (ssize_t)(o.pos - x.q), o.len, o.dist); size_t pos = 0; for (auto &k : F.r.chunks) { if (pos + k.unpack > x.q && pos < x.q + x.l) fprintf(stderr, "   chunk at %zu control %02x unpack %zu pack %zu\n", pos, k.control, k.unpack, k.pack); pos += k.unpack; } } if (lost <= 2 && !rough) vf_viol("match-lost", "%zu bytes at %zu repeat those %zu before; %zu of them were coded as matches (block start %zu, dictionary %zu, overlap %zu, end %zu)", x.l, x.q, x.d, got, R, D, ov, n); }
    }
    if (rough && lost > 3 + reach / 8) vf_viol("match-lost", "%zu of %zu repeats were not coded as matches", lost, reach); if (rough) vf_max("rough_lost_permille", reach ? lost * 1000 / reach : 0); vf_stat("plants_in_block_tails", tails);
    vf_stat("plants_in_reach", reach); vf_stat("plants_out_of_reach", beyond); vf_stat(how ? "planted_streams" : "planted_oneshot"); if (thr > 1) vf_stat("planted_mt"); if (n > D) vf_stat("planted_several_blocks"); if (!fl.empty()) vf_stat("planted_flushed"); vf_distinct("nontrivial", hash_bytes(out)); vf_distinct("levels", p.high * 100 + p.level); if (idx < 6) vf_sample("planted %s: %zu blocks in reach, all found", p.desc().c_str(), reach);
}
// ---- runs and periods
static void periodic(u64 idx, Rng &r, bool slow) {
    Params p = gen_params(r, PP_SMALLDICT); if (p.level > 7) p.level = 3; p.omit = false; unsigned thr = r.chance(40) ? 1 : (unsigned)r.range(2, 8); int how = (int)r.below(3); size_t n = r.chance(30) ? r.range(1000, 60000) : r.range(60000, slow ? 1500000 : 4500000), per = r.chance(35) ? 1 : r.chance(60) ? r.range(2, 20) : r.logsize(2, 3000); Bytes pat(per), in(n); for (u8 &b : pat) b = (u8)r.next(); for (size_t i = 0; i < n; ++i) in[i] = pat[i % per];
    vf_info("period %zu %s threads=%u how=%d size=%zu", per, p.desc().c_str(), thr, how, n); for (auto &x : p.set) if (x.first == FL2_p_omitProperties) x.second = 0; Bytes out; size_t D, ov; if (!squeeze(p, in, thr, how, r, out, &ov, &D)) return; FrameResult F; if (!judged(out, in, F)) return;
    size_t blocks = n / (D - ov) + 1, slices = blocks * std::min<size_t>(thr, 1 + std::min(n, D) / 114688); size_t cost = out.size(); vf_max("periodic_bytes_per_100k", (cost > per * 2 + slices * 64 ? cost - per * 2 - slices * 64 : 0) * 100000 / (n + 20000));
    size_t lid = 64 + slices * 100 + (per + per / 8 + 40) * (F.r.dict_resets + 1) + n / 400; if (cost > lid) vf_viol("period-not-exploited", "%zu bytes of period %zu became %zu (%zu slices, %zu resets, lid %zu)", n, per, cost, slices, F.r.dict_resets, lid); vf_stat("periodic"); vf_distinct("nontrivial", hash_bytes(out)); (void)idx;
}
// ---- noise
static void noise(u64 idx, Rng &r, bool slow) {
    Params p = gen_params(r, PP_SMALLDICT); if (p.level > 7) p.level = 3; unsigned thr = r.chance(40) ? 1 : (unsigned)r.range(2, 8); int how = (int)r.below(3); size_t n = r.chance(30) ? r.below(3000) : r.range(3000, slow ? 1500000 : 4500000); Bytes in(n); for (u8 &b : in) b = (u8)r.next(); for (auto &x : p.set) if (x.first == FL2_p_omitProperties) x.second = 0; vf_info("noise %s threads=%u how=%d size=%zu", p.desc().c_str(), thr, how, n); Bytes out; size_t D, ov; if (!squeeze(p, in, thr, how, r, out, &ov, &D)) return;
    size_t bound = FL2_compressBound(n), blocks = n / (D - ov) + 1, slices = blocks * std::min<size_t>(thr, 1 + std::min(n, D) / 114688); if (out.size() > bound && !how) vf_viol("grows", "%zu incompressible bytes became %zu, bound %zu", n, out.size(), bound); size_t lid = n + (n / 32768 + slices + 1) * 6 + 8; vf_max("noise_growth_ppm", n > 100000 ? (out.size() - n) * 1000000 / n : 0); if (out.size() > lid) vf_viol("grows", "%zu incompressible bytes became %zu (%s, %zu slices, lid %zu)", n, out.size(), how ? "stream" : "one-shot", slices, lid); vf_stat("noise"); vf_distinct("nontrivial", hash_bytes(out)); (void)idx;
}
// ---- incompressible bytes with a share of long repeats in every part: they must not be stored as if there were none
static void sparse(u64 idx, Rng &r, bool slow) {
    Params p; p.level = (int)r.range(1, slow ? 5 : 8); p.high = false; p.dict = 2u << 20; p.add(FL2_p_dictionarySize, p.dict); unsigned strat = (unsigned)r.below(4); if (strat < 3) p.add(FL2_p_strategy, strat); unsigned thr = r.chance(60) ? 1 : (unsigned)r.range(2, 4); int how = (int)r.below(3); size_t n = r.range(250000, slow ? 700000 : 1500000), gap = r.chance(25) ? r.range(6000, 26000) : r.range(60000, 150000); bool far = gap > 50000; if (far) n *= 2; Bytes in(n); for (u8 &b : in) b = (u8)r.next();
    std::vector<std::pair<size_t, size_t>> pl; size_t at = r.range(5000, 20000), total = 0, got = 0; while (at + 9000 < n) { size_t l = far ? r.range(3000, 8000) : r.range(2000, 4500), d = r.chance(50) ? r.range(l, at > l ? at : l) : r.logsize(l, std::max(at, l)); if (d <= at) { memcpy(&in[at], &in[at - d], l); pl.push_back({ at, l }); } at += l + gap - r.below(gap / 4); }
    vf_info("sparse repeats %s threads=%u how=%d size=%zu gap=%zu", p.desc().c_str(), thr, how, n, gap); Bytes out; FrameResult F; if (!squeeze(p, in, thr, how, r, out) || !judged(out, in, F)) return;
    std::vector<std::pair<size_t, size_t>> cover; for (auto &o : ops) if (o.len >= 8) cover.push_back({ o.pos, o.pos + o.len });
    for (auto &x : pl) { if (x.first + x.second + 70000 > n) continue; total += x.second; for (auto j = std::lower_bound(cover.begin(), cover.end(), std::make_pair(x.first > 300 ? x.first - 300 : 0, (size_t)0)); j != cover.end() && j->first < x.first + x.second; ++j) { size_t a = std::max(j->first, x.first), b = std::min(j->second, x.first + x.second); if (b > a) got += b - a; } }
    if (!total) return; size_t miss = (total - got) * 1000 / total; vf_max((std::string("sparse_missed_permille_strategy_") + (far ? "isolated_" : "") + std::to_string(strat)).c_str(), miss); if (far) vf_stat("sparse_isolated"); if (miss > (far ? 400 : 150)) vf_viol("repeats-stored", "%zu of %zu bytes of long repeats within incompressible data were not coded as matches", total - got, total);
    vf_stat("sparse"); vf_stat("sparse_plants", pl.size()); vf_distinct("nontrivial", hash_bytes(out)); if (idx < 40) vf_sample("sparse repeats %s: %zu of %zu bytes found", p.desc().c_str(), got, total);
}
// ---- the same data in other configurations, and by another encoder
static Bytes natural(Rng &r, size_t n, int &kind) { kind = (int)r.pick({ 3, 3, 4, 5, 6, 7, 8, 11, 15 }); return gen_data(r, n, kind); }
static void configs(u64 idx, Rng &r, bool slow) {
    int kind; size_t n = r.range(400000, slow ? 1200000 : 2200000); Bytes in = natural(r, n, kind); n = in.size(); Params p; p.level = (int)r.range(1, slow ? 5 : 8); p.high = r.chance(10); if (p.high) p.level = (int)r.range(1, 2); p.dict = r.chance(50) ? 1u << 20 : r.range(1u << 20, 4u << 20); p.add(FL2_p_dictionarySize, p.dict); vf_info("configurations %s kind=%s size=%zu", p.desc().c_str(), gen_kind_name(kind), n); size_t D, ov; Bytes a, b, c; if (!squeeze(p, in, 1, 0, r, a, &ov, &D)) return; size_t A = a.size();
    unsigned thr = (unsigned)r.range(2, 8); int how = (int)r.range(1, 2); if (!squeeze(p, in, thr, 0, r, b) || !squeeze(p, in, r.chance(50) ? 1 : thr, how, r, c)) return;
    size_t blocks = n / (D - ov) + 1, slices = blocks * std::min<size_t>(thr, 1 + std::min(n, D) / 114688);
    auto cmp = [&](const char *what, size_t z) { size_t lid = A + A / 25 + slices * 1200 + 100; vf_max((std::string("permille_") + what).c_str(), z * 1000 / A); if (A > 40000) vf_max((std::string("extra_per_slice_") + what).c_str(), z > A + A / 50 ? (z - A - A / 50) / slices : 0); if (z > lid) vf_viol("configuration-costs", "%s: %zu bytes against %zu (one thread, one-shot; %zu slices, lid %zu, content %zu %s)", what, z, A, slices, lid, n, gen_kind_name(kind)); else vf_stat("configurations_compared"); };
    cmp("multithreaded", b.size()); cmp("stream", c.size()); FrameResult F; if (!judged(b, in, F) || !judged(c, in, F)) return;
    if (r.chance(40)) { size_t z[3]; Bytes t; for (unsigned st = 0; st < 3; ++st) { Params q = p; q.add(FL2_p_strategy, st); if (!squeeze(q, in, 1, 0, r, t)) return; z[st] = t.size(); } vf_max((std::string("opt_over_fast_") + gen_kind_name(kind)).c_str(), z[1] * 1000 / z[0]); vf_max((std::string("ultra_over_opt_") + gen_kind_name(kind)).c_str(), z[2] * 1000 / z[1]); vf_stat("strategies_compared"); if (z[1] > z[0] + z[0] / 5 + 500 || z[2] > z[1] + z[1] / 8 + 500) vf_viol("strategy-costs", "%zu bytes by the fast strategy, %zu by the optimising one, %zu by the strongest (content %zu %s)", z[0], z[1], z[2], n, gen_kind_name(kind)); }
    if (r.chance(40)) { size_t X = xz_encode(in.data(), n, p.level <= 3 ? 1 : 3, (u32)D); if (X) { size_t q = A * 1000 / X; vf_max((std::string("xz_permille_") + gen_kind_name(kind) + (p.level <= 3 ? "_low" : "_high")).c_str(), A > 5000 ? q : 0); vf_stat("liblzma_compared"); bool del = !strcmp(gen_kind_name(kind), "deltas"); if (A > X + (del ? X * 3 / 2 : X * 2 / 5) + 3000) vf_viol("liblzma-smaller", "%zu bytes, liblzma needs %zu (content %zu %s)", A, X, n, gen_kind_name(kind)); } }
    vf_distinct("nontrivial", hash_bytes(a)); (void)idx;
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv); bool slow = a.extra.find("slow") != std::string::npos;
    vf_loop(a, [&](u64 i, Rng &r) { int k = (int)r.below(100); if (k < 45) planted(i, r, slow); else if (k < 60) periodic(i, r, slow); else if (k < 67) noise(i, r, slow); else if (k < 76) sparse(i, r, slow); else configs(i, r, slow); });
    return 0;
}
