// C19: size and dictionary queries compared with an independent reading of the bytes they are about.
#include "declib.h"
static const unsigned long long BADSIZE = FL2_CONTENTSIZE_ERROR;
// What the header walk has to return, from the format alone. full: the answer covers a stream whose end was seen.
static unsigned long long walk(const u8 *s, size_t n, bool *full) {
    unsigned long long t = 0; size_t p = 1; *full = false;
    while (p < n) {
        unsigned c = s[p]; if (c == 0) { *full = true; return t; }
        if (c >= 3 && c < 0x80) return BADSIZE;
        size_t h = c < 0x80 ? 3 : c < 0xC0 ? 5 : 6; if (n - p < h) return BADSIZE;
        if (c < 0x80) { size_t u = ((size_t)s[p + 1] << 8 | s[p + 2]) + 1; t += u; h += u; }
        else { t += (((size_t)(c & 31) << 16) | (size_t)s[p + 1] << 8 | s[p + 2]) + 1; h += ((size_t)s[p + 3] << 8 | s[p + 4]) + 1; }
        if (n - p < h) return BADSIZE;      // the data of the chunk is not there
        p += h;
    }
    return BADSIZE;
}
static std::string num(unsigned long long v) { return v == BADSIZE ? "the error value" : std::to_string(v); }
// copies the bytes so that they end (and once begin) at an inaccessible page
static unsigned long long ask(const u8 *s, size_t n) { Guard g(n ? n : 1); u8 *p = g.p + (n ? 0 : 1); if (n) memcpy(p, s, n); unsigned long long v = FL2_findDecompressedSize(p, n); vf_stat("size_queries"); if (n && memcmp(p, s, n)) vf_viol("input-changed", "a size query changed its input"); return v; }
static bool check_at(const u8 *s, size_t n, const std::string &how) { bool full; unsigned long long w = walk(s, n, &full), v = ask(s, n); if (w == BADSIZE) vf_stat("expected_errors"); else vf_stat("expected_sizes"); if (w > 0xFFFFFFFFull && w != BADSIZE) vf_stat("beyond_4g"); if (v != w) { vf_viol("other-size", "%zu bytes: %s reported, the chunk headers say %s (%s)", n, num(v).c_str(), num(w).c_str(), how.c_str()); return false; } return true; }
static size_t min_prop(size_t d) { unsigned p = 0; while (p < 40 && ref_dict_size((u8)p) < d) ++p; return p; }
static void encoder(u64 idx, Rng &r, bool slow) {
    Params p = gen_params(r, r.chance(90) ? PP_SMALLDICT : 0); if (p.level > 6) p.level = 3; bool stream = r.chance(50); unsigned thr = r.chance(45) ? 1 : (unsigned)r.range(2, 6); int dual = (int)r.below(2); bool tiny = r.chance(45);
    size_t cap = tiny ? 4000 : slow ? 300000 : r.chance(15) ? 6u << 20 : 700000; size_t n = tiny ? r.below(cap) : gen_size(r, cap); Bytes in = gen_data(r, n); n = in.size();
    bool far = r.chance(35);      // random bytes whose end repeats their beginning: distances up to the whole content or the whole dictionary
    auto far_data = [&](size_t dict) { size_t q = r.below(100) < 75 ? ref_dict_size((u8)r.range(0, slow ? 14 : 18)) : dict; size_t rep = r.range(60, 400), m = q + (r.chance(50) ? rep : 0) + r.below(2 * rep) - (q > rep ? rep : 0); Bytes d(m); for (u8 &b : d) b = (u8)(r.next() & 31); size_t dist = m > dict + rep && r.chance(70) ? dict - r.below(40) : m - rep - r.below(30); if (dist < m && m > rep + 1) for (size_t i = m - std::min(rep, m - 1); i < m; ++i) if (i >= dist) d[i] = d[i - dist]; vf_stat("far_repeats"); return d; };
    vf_info("%s %s threads=%u size=%zu", p.desc().c_str(), stream ? "stream" : "one-shot", thr, n);
    FL2_CCtx *c = stream ? FL2_createCStreamMt(thr, dual) : FL2_createCCtxMt(thr); if (!c) { vf_viol("create", "creation failed"); return; } size_t e = apply_params(c, p); if (FL2_isError(e)) { vf_viol("param", "%s", enm(e)); FL2_freeCCtx(c); return; }
    size_t setting = FL2_CCtx_getParameter(c, FL2_p_dictionarySize); u8 before = FL2_getCCtxDictProp(c); if (before != min_prop(setting)) vf_viol("setting-prop", "property %u announced for a setting of %zu bytes, which needs %zu", before, setting, min_prop(setting)); else vf_stat("settings_announced");
    // a stream longer than its dictionary, flushed a little after a new dictionary begins
    auto beyond = [&](size_t dict, std::vector<size_t> &cuts) { size_t rep = r.range(60, 400), at = dict / 2 + r.below(dict / 2 - rep), m = dict + r.logsize(1, r.chance(50) ? dict / 2 : 4000); Bytes d(m); for (u8 &b : d) b = (u8)(r.next() & 31); for (size_t i = 0; i < rep; ++i) d[at + i] = d[i]; size_t k = dict; cuts.clear(); while (k < m && cuts.size() < 4) { k += r.range(1, m - k); cuts.push_back(k); } if (r.chance(30)) cuts.insert(cuts.begin(), r.range(1, dict)); vf_stat("beyond_dictionary"); return d; };
    bool longer = stream && !tiny && setting <= (slow ? 300000u : 2u << 20) && r.chance(25); if (longer) { far = false; if (r.chance(70)) FL2_CCtx_setParameter(c, FL2_p_overlapFraction, 0); else FL2_CCtx_setParameter(c, FL2_p_resetInterval, 1); }
    Bytes out; int rounds = r.chance(25) ? 2 : 1; if (far) { in = far_data(setting); n = in.size(); }
    for (int k = 0; k < rounds; ++k) {
        if (k) { n = tiny ? r.below(cap) : gen_size(r, cap); in = r.chance(35) ? far_data(setting) : gen_data(r, n); n = in.size(); vf_stat("reused_objects"); if (r.chance(50)) { FL2_cancelCStream(c); size_t d = ((size_t)1 << 20) + r.below(2) * r.below(3u << 20); e = FL2_CCtx_setParameter(c, FL2_p_dictionarySize, d); if (FL2_isError(e)) { vf_viol("param", "%s", enm(e)); break; } setting = FL2_CCtx_getParameter(c, FL2_p_dictionarySize); vf_stat("dictionary_changed"); } }
        if (stream) { e = FL2_initCStream(c, 0); if (FL2_isError(e)) { vf_viol("init", "%s", enm(e)); break; } COpt o; if (longer) { in = beyond(setting, o.cuts); n = in.size(); } struct Said { size_t got; u8 prop; }; std::vector<Said> said; o.flushed = [&](size_t, size_t got) { said.push_back({ got, FL2_getCCtxDictProp(c) }); }; o.in_max = std::max<size_t>(r.logsize(100, 1 << 20), n / 200 + 1); o.out_max = std::max<size_t>(r.logsize(100, 1 << 20), n / 200 + 1); o.flush_pct = r.chance(40) ? 3 : 0; CRun R = cstream_run(c, in, r, o); if (R.err || !R.ended) { vf_viol("stream-error", "%s: %s", R.op, R.err ? enm(R.err) : "not ended"); break; } out = std::move(R.out);
            // what is announced at a flush must suffice for what was delivered until then
            for (const Said &q : said) { if (!q.got || q.got > out.size()) continue; Bytes part(out.begin(), out.begin() + (long)q.got); if (!p.omit) part[0] &= 0x7F; part.push_back(0); FrameResult F = judge(part, p.omit, q.prop); size_t have = ref_dict_size(q.prop); if (F.st != REF_OK || F.r.max_dist > have) { vf_viol("flush-prop-small", "property %u (%zu bytes) announced at a flush after %zu bytes of output, which use a distance of %zu (%s)", q.prop, have, q.got, F.r.max_dist, F.why.c_str()); break; } vf_stat("announced_at_flush"); if (longer) vf_stat("announced_at_flush_beyond"); } }
        else { out.resize(FL2_compressBound(n)); size_t z = FL2_compressCCtx(c, out.data(), out.size(), in.data(), n, 0); if (FL2_isError(z)) { vf_viol("compress-error", "%s", enm(z)); break; } out.resize(z); }
        u8 prop = FL2_getCCtxDictProp(c); size_t pd = prop <= 40 ? FL2_getDictSizeFromProp(prop) : 0;
        if (prop > 40) { vf_viol("prop", "property %u", prop); break; }
        if (prop > min_prop(setting)) vf_viol("prop-large", "property %u (%zu bytes) for a setting of %zu bytes", prop, pd, setting);
        FrameResult F = judge(out, p.omit, prop); if (F.st != REF_OK || F.r.out != in) { vf_viol("ref-reject", "independent decoder with the dictionary of property %u: %s", prop, F.st != REF_OK ? F.why.c_str() : "other content"); break; }
        if (F.r.max_dist > pd) vf_viol("prop-small", "the stream uses distance %zu, property %u stands for %zu", F.r.max_dist, prop, pd); else { vf_stat("announced_sufficient"); if (p.omit) vf_stat("announced_sufficient_omitted"); } vf_max("distance_permille_of_dictionary", pd ? F.r.max_dist * 1000 / pd : 0); if (F.r.max_dist > pd - pd / 20) vf_stat("distances_above_95_percent");
        if (!p.omit) { size_t h = FL2_getDictSizeFromProp(out[0]); if (h != ref_dict_size(out[0] & 0x3F)) vf_viol("first-byte", "FL2_getDictSizeFromProp(%u) gives %zu", out[0], h); else vf_stat("first_bytes"); if (F.r.max_dist > h) vf_viol("prop-small", "the stream uses distance %zu, its first byte stands for %zu", F.r.max_dist, h); }
        // the size query on the whole stream, with more behind it, and on what is missing its end
        Bytes s; if (p.omit) s.push_back((u8)r.next()); s.insert(s.end(), out.begin(), out.end()); size_t end = F.r.consumed + 1; if (s[end - 1] != 0) vf_viol("no-end", "no end marker where the independent decoder saw one");
        std::string how = p.desc() + (stream ? " stream" : " one-shot");
        auto want = [&](size_t k, unsigned long long x) { unsigned long long v = ask(s.data(), k); if (v != x) vf_viol(x == BADSIZE ? "prefix-accepted" : "size", "%zu of %zu bytes (end marker at %zu, content %zu): %s reported (%s)", k, s.size(), end, n, num(v).c_str(), how.c_str()); else vf_stat(x == BADSIZE ? "prefixes_refused" : "sizes_exact"); };
        if (p.omit) { Guard g(out.size(), false); memcpy(g.p, out.data(), out.size()); unsigned long long v = FL2_findDecompressedSize(g.p - 1, out.size() + 1); if (v != n) vf_viol("size", "omitted property byte: %s for %zu bytes", num(v).c_str(), n); else vf_stat("omitted_property_queries"); }
        for (size_t k = end; k <= s.size(); ++k) want(k, n);
        { Bytes t = s; size_t m = r.range(1, 40); for (size_t i = 0; i < m; ++i) t.push_back((u8)r.next()); unsigned long long v = ask(t.data(), t.size()); if (v != n) vf_viol("size", "with %zu more bytes behind the stream: %s instead of %zu (%s)", m, num(v).c_str(), n, how.c_str()); else vf_stat("sizes_exact"); }
        if (end <= 3000) { for (size_t k = 0; k < end; ++k) want(k, BADSIZE); vf_stat("all_prefixes"); }
        else { for (auto &q : F.r.chunks) for (int d = -1; d <= 7; ++d) { size_t k = q.pos + d + (p.omit ? 0 : 0); if (k < end && F.r.chunks.size() < 60) want(k, BADSIZE); } for (int i = 0; i < 40; ++i) want(r.below(end), BADSIZE); for (size_t k = 0; k < 12; ++k) want(end - 1 - k, BADSIZE); vf_stat("sampled_prefixes"); }
        vf_distinct("nontrivial", hash_bytes(s)); if (idx < 4) vf_sample("%s: %zu -> %zu, property %u, largest distance %zu", how.c_str(), n, out.size(), prop, F.r.max_dist);
    }
    FL2_freeCCtx(c); vf_stat("encoder_streams");
}
static void foreign(u64 idx, Rng &r) {
    std::string how; Bytes f; int kind = (int)r.below(5);
    if (kind == 0) { f.resize(r.logsize(1, 3000)); for (u8 &b : f) b = (u8)r.next(); how = "noise"; }
    else if (kind == 1) { // any sequence of chunk headers, without sense in between
        f.push_back((u8)r.next()); size_t m = r.logsize(1, 60); for (size_t i = 0; i < m; ++i) { u8 c = r.chance(4) ? (u8)r.range(3, 0x7F) : r.chance(35) ? (u8)r.range(1, 2) : (u8)r.range(0x80, 0xFF); f.push_back(c); size_t pk = r.logsize(1, 300); if (r.chance(2)) pk = 65536; if (c < 0x80) { f.push_back((u8)((pk - 1) >> 8)); f.push_back((u8)(pk - 1)); } else { f.push_back((u8)r.next()); f.push_back((u8)r.next()); f.push_back((u8)((pk - 1) >> 8)); f.push_back((u8)(pk - 1)); if (c >= 0xC0) f.push_back((u8)r.next()); } if (!r.chance(3)) for (size_t j = 0; j < pk; ++j) f.push_back((u8)r.next()); }
        if (r.chance(80)) f.push_back(0); for (size_t i = r.below(6); i; --i) f.push_back((u8)r.next()); how = "headers"; vf_stat("header_sequences"); }
    else if (kind == 2 && r.chance(40)) { size_t m = r.range(2000, 9000); f.push_back(24); for (size_t i = 0; i < m; ++i) { u8 h[7] = { (u8)(i ? r.chance(50) ? 0x9F : 0xDF : 0xFF), 0xFF, 0xFF, 0, 0, 0x5D, 0 }; if (h[0] < 0xC0) f.insert(f.end(), { h[0], 0xFF, 0xFF, 0, 0, 0x11 }); else f.insert(f.end(), h, h + 7); } f.push_back(0); how = "more than 4 GB"; }
    else if (kind == 3) { SynthOpt o = synth_opt(r, 200000); SynthOut s = synth_frame(r, o); f = s.frame; how = "synthesised"; unsigned long long v = ask(f.data(), f.size()); if (v != s.content.size()) vf_viol("size", "%s for a stream of %zu bytes", num(v).c_str(), s.content.size()); else vf_stat("synth_sizes_exact"); }
    else { Src s = gen_src(r, 100000, 10); f = s.f; how = s.how; }
    vf_info("%s, %zu bytes", how.c_str(), f.size()); check_at(f.data(), f.size(), how); vf_distinct("nontrivial", hash_bytes(f));
    if (f.size() <= 1500) for (size_t k = 0; k < f.size(); ++k) { if (!check_at(f.data(), k, how)) break; } else for (int i = 0; i < 30; ++i) if (!check_at(f.data(), r.below(f.size()), how)) break;
    if (f.size() > 1) for (int i = 0; i < 20; ++i) { Bytes t = f; t[r.below(std::min<size_t>(t.size(), r.chance(50) ? 8 : t.size()))] = (u8)r.next(); if (!check_at(t.data(), t.size(), how + ", one byte changed")) break; }
    vf_stat("foreign"); if (idx < 8) vf_sample("%s, %zu bytes", how.c_str(), f.size());
}
static void props(Rng &r) {
    for (unsigned b = 0; b < 256; ++b) { if (b & 0x40) { (void)FL2_getDictSizeFromProp((u8)b); continue; } unsigned q = b & 0x3F; size_t v = FL2_getDictSizeFromProp((u8)b); if (q > 40 ? !FL2_isError(v) : v != ref_dict_size((u8)q)) vf_viol("prop-size", "FL2_getDictSizeFromProp(%u) gives %zu, expected %zu", b, v, q > 40 ? 0 : ref_dict_size((u8)q)); else vf_stat("property_bytes"); }
    FL2_CCtx *c = FL2_createCCtxMt(1); if (!c) return;
    for (int i = 0; i < 60; ++i) { unsigned k = (unsigned)r.range(20, 30); size_t d = r.chance(30) ? (size_t)1 << k : r.chance(40) ? (size_t)3 << (k - 1) : r.logsize(1u << 20, (size_t)1 << 30); if (r.chance(50)) d += r.range(0, 4) - 2; if (d < ((size_t)1 << 20)) d = (size_t)1 << 20; if (FL2_isError(FL2_CCtx_setParameter(c, FL2_p_dictionarySize, d))) { if (d <= ((size_t)1 << 30)) vf_viol("param", "dictionary size %zu refused", d); continue; } u8 p = FL2_getCCtxDictProp(c); size_t m = min_prop(d); if (p != m) vf_viol("setting-prop", "property %u announced for a setting of %zu bytes, which needs %zu", p, d, m); else { vf_stat("settings_announced"); if (FL2_getDictSizeFromProp(p) < d) vf_viol("setting-prop", "property %u stands for less than %zu", p, d); vf_distinct("properties_seen", p); } }
    FL2_freeCCtx(c);
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv); bool slow = a.extra.find("slow") != std::string::npos;
    vf_loop(a, [&](u64 i, Rng &r) { if (r.chance(5)) props(r); if (r.chance(50)) encoder(i, r, slow); else foreign(i, r); });
    return 0;
}
