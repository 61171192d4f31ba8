// C07: damaged or shortened streams never pass as complete, in any decoder.
#include "declib.h"
struct Dec { FL2_DCtx *c = nullptr, *cm = nullptr; FL2_DStream *s = nullptr, *sm = nullptr; unsigned t = 2; };
static Dec g;
static void objects(Rng &r) {
    if (!g.c || r.chance(3)) { FL2_freeDCtx(g.c); FL2_freeDCtx(g.cm); FL2_freeDStream(g.s); FL2_freeDStream(g.sm); g.t = (unsigned)r.range(2, 4); g.c = FL2_createDCtx(); g.cm = FL2_createDCtxMt(g.t); g.s = FL2_createDStream(); g.sm = FL2_createDStreamMt(g.t); }
}
static u64 checked;
// f: what is decoded; content: of the undamaged stream; prefix: f is a proper prefix of that stream
static void verdicts(Rng &r, const Bytes &f, const Bytes &content, bool prefix, const char *what, unsigned mask) {
    FrameResult F = ref_frame(f.data(), f.size(), 64u << 20);
    if (prefix && F.st == REF_OK) { vf_viol("oracle", "a proper prefix is a complete stream: %s", what); return; }
    bool may = F.st == REF_OK; u32 stored = 0; if (may && F.has_hash) stored = F.hash_stored;
    size_t cap = content.size() + (r.chance(50) ? 0 : r.below(3000)); if (may) cap = std::max(cap, F.r.out.size());
    // one-shot
    u8 *in = (u8 *)malloc(f.size() ? f.size() : 1); if (f.size()) memcpy(in, f.data(), f.size());
    Bytes out(cap + 1);
    auto one = [&](const char *nm, size_t z) {
        ++checked; if (FL2_isError(z)) { vf_stat("errors_reported"); return; }
        if (!may) { vf_viol(prefix ? "prefix-complete" : "damage-accepted", "%s reports success (%zu bytes) for %s: %s", nm, z, what, F.why.c_str()); return; }
        if (F.has_hash && ref_xxh32(out.data(), z) != stored) vf_viol("hash-not-checked", "%s delivers %zu bytes whose XXH32 differs from the stored one: %s", nm, z, what);
        if (z != F.r.out.size() || memcmp(out.data(), F.r.out.data(), z)) vf_viol("wrong-content", "%s: %s", nm, what); vf_stat("still_valid"); };
    if (mask & 1) one("FL2_decompress", FL2_decompress(out.data(), cap, in, f.size()));
    if (mask & 2) one("FL2_decompressMt", FL2_decompressMt(out.data(), cap, in, f.size(), g.t));
    if (mask & 4) one("FL2_decompressDCtx", FL2_decompressDCtx(g.c, out.data(), cap, in, f.size()));
    if (mask & 8) one("FL2_decompressDCtx multithreaded", FL2_decompressDCtx(g.cm, out.data(), cap, in, f.size()));
    if (f.size() && (mask & 16)) for (int m = 0; m < 2; ++m) { FL2_DCtx *c = m ? g.cm : g.c; if (FL2_isError(FL2_initDCtx(c, f[0]))) continue; one(m ? "FL2_decompressDCtx after FL2_initDCtx, multithreaded" : "FL2_decompressDCtx after FL2_initDCtx", FL2_decompressDCtx(c, out.data(), cap, in + 1, f.size() - 1)); }
    free(in);
    // streaming
    for (int m = 0; m < 4; ++m) if (mask & (32u << m)) {
        FL2_DStream *d = m & 1 ? g.sm : g.s; DOpt o; o.in_max = r.chance(30) ? f.size() + 1 : r.logsize(1, std::max<size_t>(f.size(), 2)); o.out_max = r.chance(30) ? cap + 1 : r.logsize(std::max<size_t>(1, cap / 300), std::max<size_t>(cap, 2)); o.in_max = std::max(o.in_max, f.size() / 300 + 1);
        o.style = (int)r.pick({ 0, 0, 3, 4 }); if (f.size() < 400 && cap < 3000 && r.chance(30)) o.style = (int)r.range(1, 2); if (o.style == 3) o.out_max = cap + 1; o.out_limit = 70u << 20; bool raw = (m & 2) && f.size(); Bytes body; if (raw) { o.raw = true; o.prop = f[0]; body.assign(f.begin() + 1, f.end()); }
        FL2_setDStreamTimeout(d, 0); FL2_setDStreamMemoryLimitMt(d, r.chance(20) ? r.logsize(20000, 4 << 20) : (size_t)1 << 30);
        DResult D = dstream_run(d, raw ? body : f, r, o); ++checked; vf_stat("stream_runs");
        const char *nm = m == 0 ? "FL2_decompressStream" : m == 1 ? "FL2_decompressStream multithreaded" : m == 2 ? "FL2_decompressStream withProp" : "FL2_decompressStream withProp multithreaded";
        if (D.ended) {
            if (!may) vf_viol(prefix ? "prefix-complete" : "damage-accepted", "%s returns 0 after %zu bytes for %s: %s", nm, D.out.size(), what, F.why.c_str());
            else { vf_stat("still_valid"); if (F.has_hash && ref_xxh32(D.out.data(), D.out.size()) != stored) vf_viol("hash-not-checked", "%s ends with bytes whose XXH32 differs from the stored one: %s", nm, what); if (D.out != F.r.out) vf_viol("wrong-content", "%s: %s", nm, what); }
        } else vf_stat(FL2_isError(D.code) ? "errors_reported" : "incomplete_reported");
        if (prefix && (D.out.size() > content.size() || memcmp(D.out.data(), content.data(), D.out.size()))) vf_viol("prefix-content", "%s: what it delivers for %s is not the start of the content", nm, what);
        if (D.stalled) vf_viol("runaway", "%s: %s", nm, what);
    }
    vf_distinct("nontrivial", hash_bytes(f));
}
static void one(u64 idx, Rng &r, bool slow) {
    objects(r); checked = 0; Bytes f; std::string how; int kind = (int)r.below(10); size_t cap = kind < 5 ? 300 : kind < 8 ? 20000 : slow ? 60000 : 700000;
    if (r.chance(45)) { Params p = gen_params(r, PP_NOOMIT | PP_SMALLDICT); p.level = (int)r.range(1, 4); p.high = false; Bytes in = gen_data(r, gen_size(r, cap)); f.resize(FL2_compressBound(in.size())); FL2_CCtx *c = FL2_createCCtxMt(r.chance(70) ? 1 : 3); apply_params(c, p); FL2_CCtx_setParameter(c, FL2_p_doXXHash, r.chance(85)); size_t z = FL2_compressCCtx(c, f.data(), f.size(), in.data(), in.size(), 0); FL2_freeCCtx(c); if (FL2_isError(z)) { vf_viol("compress", "%s", enm(z)); return; } f.resize(z); how = "encoder"; }
    else { SynthOpt o = synth_opt(r, cap); o.target = std::max<size_t>(o.target, 1); o.hash = r.chance(85); if (r.chance(40)) o.resets_pct = 60; f = synth_frame(r, o).frame; how = "synth"; }
    FrameResult F = ref_frame(f.data(), f.size(), 64u << 20); if (F.st != REF_OK) { vf_viol("oracle", "the undamaged %s stream is not valid: %s", how.c_str(), F.why.c_str()); return; }
    const Bytes &content = F.r.out; size_t n = F.consumed; f.resize(n); char w[120];
    // proper prefixes: all of a short stream; else around every structural position
    std::set<size_t> cut; if (n <= 220) for (size_t i = 0; i < n; ++i) cut.insert(i); else {
        auto near = [&](size_t p) { for (long k = -6; k <= 8; ++k) if ((long)p + k >= 0 && p + k < n && r.chance(n < 3000 ? 60 : 25)) cut.insert(p + k); };
        for (size_t i = 1; i <= 12; ++i) cut.insert(n - i); size_t step = F.r.chunks.size() / 6 + 1; for (size_t i = 0; i < F.r.chunks.size(); i += step) near(1 + F.r.chunks[i].pos); for (int i = 0; i < 12; ++i) cut.insert(r.below(n)); while (cut.size() > (n > 100000 ? 16 : 60)) { auto it = cut.begin(); std::advance(it, r.below(cut.size())); cut.erase(it); } for (size_t i = 1; i <= 6; ++i) cut.insert(n - i); }
    for (size_t k : cut) { Bytes p(f.begin(), f.begin() + k); snprintf(w, sizeof w, "the first %zu of %zu bytes of a valid stream (%s)", k, n, how.c_str()); verdicts(r, p, content, true, w, n <= 220 && r.chance(50) ? 0x1FF : (unsigned)(r.next() & r.next() & 0x1FF) | (1u << r.below(9)) | (n - k <= 6 ? 0x6Bu : 0)); vf_stat("prefixes"); }
    // damage
    size_t bits = n * 8; int rounds = n <= 40 ? 0 : n > 100000 ? 12 : 40;
    if (n <= 40) for (size_t b = 0; b < bits; ++b) { Bytes d = f; d[b / 8] ^= (u8)(1 << (b % 8)); snprintf(w, sizeof w, "bit %zu of a %zu byte stream inverted (%s)", b, n, how.c_str()); verdicts(r, d, content, false, w, (unsigned)(r.next() & r.next() & 0x1FF) | (1u << r.below(9))); vf_stat("damaged"); }
    for (int i = 0; i < rounds; ++i) {
        Bytes d = f; int k = (int)r.below(10); size_t a = r.range(1, n - 1);
        if (k < 3) { d[a] ^= (u8)(1 << r.below(8)); snprintf(w, sizeof w, "a bit of byte %zu inverted", a); }
        else if (k < 5 && F.r.unc_chunks) { std::vector<size_t> u; for (auto &c : F.r.chunks) if (c.control < 3) u.push_back(1 + c.pos + 3 + r.below(c.unpack)); size_t q = u[r.below(u.size())]; d[q] ^= (u8)r.range(1, 255); snprintf(w, sizeof w, "raw byte %zu changed", q); }
        else if (k < 7 && F.has_hash) { size_t q = n - 1 - r.below(4); d[q] ^= (u8)r.range(1, 255); if (r.chance(30)) for (int j = 1; j <= 4; ++j) d[n - j] = (u8)(r.chance(50) ? 0 : r.next()); snprintf(w, sizeof w, "the stored checksum changed"); }
        else if (k == 7) { size_t len = r.range(1, std::min<size_t>(64, n - a)); for (size_t j = 0; j < len; ++j) d[a + j] = (u8)r.next(); snprintf(w, sizeof w, "%zu bytes at %zu overwritten", len, a); }
        else if (k == 8 && F.r.chunks.size() > 1) { auto &c = F.r.chunks[r.below(F.r.chunks.size())]; size_t e = 1 + c.pos + c.head + c.pack; if (r.chance(50)) { d.erase(d.begin() + 1 + c.pos, d.begin() + e); snprintf(w, sizeof w, "chunk at %zu removed", c.pos); } else { Bytes t(f.begin() + 1 + c.pos, f.begin() + e); d.insert(d.begin() + e, t.begin(), t.end()); snprintf(w, sizeof w, "chunk at %zu repeated", c.pos); } }
        else { std::string h; d = mutate_frame(r, f, &h); snprintf(w, sizeof w, "%.100s", h.c_str()); }
        verdicts(r, d, content, false, w, (unsigned)(r.next() & r.next() & 0x1FF) | (1u << r.below(9)) | (1u << r.below(9))); vf_stat("damaged");
    }
    vf_stat("verdicts", checked); vf_stat("streams"); if (F.has_hash) vf_stat("hashed_streams"); if (F.r.dict_resets > 1) vf_stat("multi_block_streams");
    if (idx < 4) vf_sample("%s stream of %zu bytes, %zu chunks, hash %d: %zu prefixes, %llu verdicts", how.c_str(), n, F.r.chunks.size(), F.has_hash, cut.size(), (unsigned long long)checked);
}
int main(int argc, char **argv) { Args a = vf_args(argc, argv); bool slow = a.extra.find("slow") != std::string::npos; vf_loop(a, [&](u64 i, Rng &r) { one(i, r, slow); }); return 0; }
