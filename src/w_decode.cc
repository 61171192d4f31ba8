// C05 (mode safe): decoding any bytes through any entry point is memory safe, terminates, leaves the object reusable.
// C06 (mode agree): every decoder gives exactly the verdict and content of the independent decoder.
#include "declib.h"
static bool agree; static FL2_DCtx *g_ctx, *g_ctxmt; static unsigned g_mt; static FL2_DStream *g_ds, *g_dsmt; static unsigned g_dmt;
static const char *vd(RefStatus s) { return s == REF_OK ? "complete" : s == REF_BAD ? "invalid" : "truncated"; }
// destination: heap block of the exact size (sanitizers) or ending at a guard page
struct Buf { Guard g; u8 *h = nullptr; u8 *p; size_t n; Buf(size_t n, bool guard) : n(n) { if (guard) { g.alloc(n + 32); memset(g.p, 0x77, 32); p = g.p + 32; } else p = h = (u8 *)malloc(n ? n : 1); } bool intact() { if (h) return true; for (int i = 0; i < 32; ++i) if (g.p[i] != 0x77) return false; return true; } ~Buf() { free(h); } };
struct Try { std::string name; size_t code; Bytes out; };
static void one(u64 idx, Rng &r, bool slow, bool guard) {
    size_t cap = slow ? (r.chance(10) ? 300000 : 20000) : r.chance(10) ? 1500000 : r.chance(25) ? 300000 : 30000;
    Src s = gen_src(r, cap); const Bytes &f = s.f; size_t n = f.size();
    vf_info("%s, %zu bytes", s.how.c_str(), n);
    FrameResult F = ref_frame(f.data(), n, 64u << 20); size_t olen = F.r.out.size();
    // what the chunk headers announce bounds what a decoder may need
    vfh.guard = guard; vfh.fill = guard ? (int)r.below(256) : -1;
    u8 initfill = (u8)r.next();
    size_t exact = F.st == REF_OK ? olen : olen + (size_t)r.below(3) * 50000;
    int checks = 0;
    auto oneshot_check = [&](const char *nm, size_t dcap, const std::function<size_t(u8 *, size_t, const u8 *, size_t)> &call, bool whole, const Bytes &src) {
        Buf d(dcap, guard), in(src.size(), guard); if (dcap) memset(d.p, initfill, dcap); if (src.size()) memcpy(in.p, src.data(), src.size());
        size_t z = call(d.p, dcap, in.p, src.size()); ++checks; vf_stat("oneshot_calls");
        if (!d.intact() || !in.intact()) vf_viol("write-outside", "%s wrote before a buffer", nm);
        if (src.size() && memcmp(in.p, src.data(), src.size())) vf_viol("source-changed", "%s changed its input", nm);
        if (!FL2_isError(z) && z > dcap) { vf_viol("size-above-capacity", "%s returned %zu for capacity %zu", nm, z, dcap); return; }
        if (!agree) return;
        RefStatus want = F.st; bool fits = dcap >= olen;
        if (want == REF_OK && fits) { if (FL2_isError(z)) vf_viol("rejects-valid", "%s: %s, but the stream is valid (%zu content bytes)", nm, enm(z), olen); else if (z != olen || memcmp(d.p, F.r.out.data(), olen)) vf_viol("wrong-content", "%s: %zu bytes, expected %zu, or other content", nm, z, olen); }
        else if (!FL2_isError(z)) vf_viol(want == REF_OK ? "accepts-short-buffer" : "accepts-invalid", "%s accepts (%zu bytes) what the format calls %s: %s", nm, z, vd(want), F.why.c_str());
        (void)whole; };
    // -- one-shot entry points
    size_t caps[3] = { exact, r.chance(50) ? exact + r.below(100000) : r.below(exact + 1), exact };
    for (int i = 0; i < 2; ++i) {
        size_t c = caps[i]; unsigned t = (unsigned)r.range(2, 6);
        oneshot_check("FL2_decompress", c, [&](u8 *d, size_t dn, const u8 *q, size_t m) { return FL2_decompress(d, dn, q, m); }, true, f);
        if (r.chance(60)) oneshot_check("FL2_decompressMt", c, [&](u8 *d, size_t dn, const u8 *q, size_t m) { return FL2_decompressMt(d, dn, q, m, t); }, true, f);
        vfh.guard = false;      // long-lived objects are not guarded
        if (!g_ctx || r.chance(10)) { FL2_freeDCtx(g_ctx); g_ctx = FL2_createDCtx(); } if (!g_ctxmt || r.chance(10)) { FL2_freeDCtx(g_ctxmt); g_mt = (unsigned)r.range(2, 6); g_ctxmt = FL2_createDCtxMt(g_mt); }
        vfh.guard = guard;
        oneshot_check("FL2_decompressDCtx (reused)", c, [&](u8 *d, size_t dn, const u8 *q, size_t m) { return FL2_decompressDCtx(g_ctx, d, dn, q, m); }, true, f);
        if (r.chance(60)) oneshot_check("FL2_decompressDCtx (reused, multithreaded)", c, [&](u8 *d, size_t dn, const u8 *q, size_t m) { return FL2_decompressDCtx(g_ctxmt, d, dn, q, m); }, true, f);
        if (r.chance(30) && n) { // property passed separately; then no checksum is expected
            Bytes raw(f.begin() + 1, f.end()); u8 prop = f[0]; FL2_DCtx *x = r.chance(50) ? g_ctx : g_ctxmt; FrameResult G = F; bool hadhash = prop >> 7;
            if (hadhash && G.r.st == REF_OK) { G.st = REF_OK; G.why.clear(); } std::swap(F, G); size_t ol = olen; olen = F.r.out.size();
            size_t e = FL2_initDCtx(x, prop); bool ok = !FL2_isError(e);
            if (agree && !ok && ref_dict_size(prop & 0x3F)) vf_viol("rejects-prop", "FL2_initDCtx(%u): %s", prop, enm(e)); if (agree && ok && !ref_dict_size(prop & 0x3F)) vf_viol("accepts-prop", "FL2_initDCtx(%u)", prop);
            if (ok && !hadhash) oneshot_check("FL2_decompressDCtx with FL2_initDCtx", c, [&](u8 *d, size_t dn, const u8 *q, size_t m) { return FL2_decompressDCtx(x, d, dn, q, m); }, true, raw);
            else if (ok) { Buf d(c, guard); (void)FL2_decompressDCtx(x, d.p, c, raw.data(), raw.size()); }
            std::swap(F, G); olen = ol; }
    }
    if (F.st == REF_OK && r.chance(40)) { Bytes t(f); size_t k = r.range(1, 3000); Bytes junk = gen_data(r, k); t.insert(t.end(), junk.begin(), junk.end()); if (F.consumed == n) { oneshot_check("FL2_decompress with trailing data", exact, [&](u8 *d, size_t dn, const u8 *q, size_t m) { return FL2_decompress(d, dn, q, m); }, false, t); oneshot_check("FL2_decompressMt with trailing data", exact, [&](u8 *d, size_t dn, const u8 *q, size_t m) { return FL2_decompressMt(d, dn, q, m, 3); }, false, t); } }
    { Buf in(n, guard); if (n) memcpy(in.p, f.data(), n); unsigned long long fs = FL2_findDecompressedSize(in.p, n); vf_stat("size_queries"); if (agree && F.r.st == REF_OK && fs != F.r.out.size() && ref_dict_size(F.prop)) vf_viol("findsize", "FL2_findDecompressedSize %llu, content %zu", fs, F.r.out.size()); }
    // -- streaming
    for (int mt = 0; mt < 2; ++mt) {
        bool fresh = r.chance(guard ? 60 : 25); FL2_DStream *&keep = mt ? g_dsmt : g_ds; unsigned t = (unsigned)r.range(2, 5); vfh.guard = guard && fresh;
        FL2_DStream *d = fresh ? (mt ? FL2_createDStreamMt(t) : FL2_createDStream()) : keep ? keep : (keep = mt ? (g_dmt = t, FL2_createDStreamMt(t)) : FL2_createDStream()); if (!d) continue;
        FL2_setDStreamTimeout(d, 0);
        DOpt o; o.in_max = std::max<size_t>(r.logsize(1, 300000), n / 2000); o.out_max = std::max<size_t>(r.logsize(1, 300000), olen / 2000); o.style = (int)r.pick({ 0, 0, 0, 3, 4 }); if (o.style == 3) o.out_max = exact + 100; if (n < 3000 && olen < 20000 && r.chance(20)) o.style = (int)r.range(1, 2); o.out_limit = 70u << 20;
        if (mt && r.chance(30)) { size_t lim = r.logsize(1000, 8 << 20); FL2_setDStreamMemoryLimitMt(d, lim); vf_info("limit %zu", lim); } else FL2_setDStreamMemoryLimitMt(d, (size_t)1 << 30); if (mt && r.chance(20)) FL2_setDStreamTimeout(d, 1);
        bool raw = n > 0 && !(f[0] & 0x80) && r.chance(25); Bytes body; if (raw) { o.raw = true; o.prop = f[0]; body.assign(f.begin() + 1, f.end()); }
        std::string nm = std::string("FL2_decompressStream") + (mt ? " multithreaded" : "") + (raw ? " withProp" : "") + " style " + std::to_string(o.style);
        vf_info("mt=%d fresh=%d style=%d in_max=%zu out_max=%zu raw=%d", mt, fresh, o.style, o.in_max, o.out_max, raw); DResult D = dstream_run(d, raw ? body : f, r, o); ++checks; vf_stat("stream_runs"); vf_stat("stream_calls", D.calls);
        if (D.bad) vf_viol("position", "%s: %s", nm.c_str(), D.bad); else if (D.stalled) vf_viol("runaway", "%s: no end after %zu bytes of output and %llu calls", nm.c_str(), D.out.size(), (unsigned long long)D.calls);
        if (agree) {
            bool bigdict = false; const char *e = FL2_isError(D.code) ? enm(D.code) : "1";
            if (FL2_isError(D.code) && FL2_getErrorCode(D.code) == FL2_error_memory_allocation) bigdict = true;
            if (bigdict && ref_dict_size(F.prop) < (1u << 30)) vf_viol("stream-memory", "%s: %s with a dictionary of %zu", nm.c_str(), e, ref_dict_size(F.prop));
            if (!bigdict) {
                if (F.st == REF_OK) { if (!D.ended) vf_viol("rejects-valid", "%s: %s after %zu of %zu content bytes of a valid stream", nm.c_str(), e, D.out.size(), olen); else if (D.out != F.r.out) vf_viol("wrong-content", "%s: %zu bytes (expected %zu) or other content", nm.c_str(), D.out.size(), olen); else if (D.consumed + raw != F.consumed) vf_viol("consumed", "%s: %zu bytes consumed, the stream has %zu", nm.c_str(), D.consumed + raw, F.consumed); }
                else if (D.ended) vf_viol("accepts-invalid", "%s reports a complete stream (%zu bytes) where the format says %s: %s", nm.c_str(), D.out.size(), vd(F.st), F.why.c_str());
                else if (F.st == REF_TRUNC && FL2_isError(D.code) && FL2_getErrorCode(D.code) != FL2_error_buffer && FL2_getErrorCode(D.code) != FL2_error_srcSize_wrong) { vf_stat("truncated_reported_as_error"); }
                else if (F.st == REF_BAD && !FL2_isError(D.code) && !F.r.partial && (!mt || F.why == "dictionary property" || ref_walk(f.data() + 1, n - 1))) vf_viol("stream-no-error", "%s ends without an error on an invalid stream: %s", nm.c_str(), F.why.c_str());
            } }
        else if (!FL2_isError(D.code) || r.chance(30)) { /* go on after the end or an error: must stay memory safe */
            for (int k = 0; k < 3; ++k) { u8 ib[40], ob[40]; for (auto &b : ib) b = (u8)r.next(); FL2_inBuffer x = { ib, r.below(41), 0 }; FL2_outBuffer y = { ob, r.below(41), 0 }; size_t c = FL2_decompressStream(d, &y, &x); if (FL2_isTimedOut(c)) { int w = 0; while (FL2_isTimedOut(FL2_waitDStream(d)) && ++w < 100000) {} } if (x.pos > x.size || y.pos > y.size) vf_viol("position", "%s: position past the buffer after the end", nm.c_str()); vf_stat("calls_after_end"); } }
        // afterwards valid data decodes
        if (r.chance(agree ? 10 : 35)) { SynthOpt so; so.target = r.logsize(1, 5000); so.resets_pct = 20; SynthOut v = synth_frame(r, so); FL2_setDStreamTimeout(d, 0); DOpt q; q.in_max = q.out_max = 2000; DResult E = dstream_run(d, v.frame, r, q); vf_stat("reuse_after"); if (!E.ended || E.out != v.content) vf_viol("reuse", "%s: after this input a valid stream gives %s, %zu of %zu bytes", nm.c_str(), FL2_isError(E.code) ? enm(E.code) : "no error", E.out.size(), v.content.size()); }
        if (fresh) FL2_freeDStream(d);
    }
    if (!agree && r.chance(35)) { SynthOpt so; so.target = r.logsize(1, 5000); so.resets_pct = 20; SynthOut v = synth_frame(r, so); for (int m = 0; m < 2; ++m) { Bytes o(v.content.size() + 1); size_t z = FL2_decompressDCtx(m ? g_ctxmt : g_ctx, o.data(), v.content.size(), v.frame.data(), v.frame.size()); vf_stat("reuse_after"); if (z != v.content.size() || memcmp(o.data(), v.content.data(), z)) vf_viol("reuse", "one-shot context: after this input a valid stream gives %s", FL2_isError(z) ? enm(z) : "other content"); } }
    vfh.guard = false; vfh.fill = -1; if (guard) { static long seen = 0; if (vfh_guard_bad() != seen) { seen = vfh_guard_bad(); vf_viol("heap-tail", "bytes after a block of the library were overwritten"); } vf_max("guarded_blocks", (u64)vfh_guard_blocks()); }
    vf_stat(F.st == REF_OK ? "valid" : F.st == REF_BAD ? "invalid" : "truncated"); if (F.st == REF_BAD) { std::string w = "why_" + F.why; for (auto &c : w) if (c == ' ') c = '_'; vf_stat(w.c_str()); } vf_stat("bytes_decoded", olen * checks); vf_distinct("nontrivial", hash_bytes(f));
    if (idx < 4) vf_sample("%s: %zu bytes, %s%s%s, %zu content bytes, %d decodings", s.how.c_str(), n, vd(F.st), F.why.empty() ? "" : ": ", F.why.c_str(), olen, checks);
}
int main(int argc, char **argv) { Args a = vf_args(argc, argv); bool slow = a.extra.find("slow") != std::string::npos, guard = a.extra.find("guard") != std::string::npos; agree = a.mode == "agree"; vf_loop(a, [&](u64 i, Rng &r) { one(i, r, slow, guard); }); return 0; }
