// C09: no data races. The race detector judges; this drives many threads through every mode of use the documentation allows.
#include "declib.h"
#include <thread>
#include <atomic>
static Params rparams(Rng &r) { Params p; p.level = (int)r.pick({ 1, 1, 2, 3, 4 }); p.dict = 1u << 20; p.add(FL2_p_dictionarySize, p.dict); if (r.chance(30)) p.add(FL2_p_overlapFraction, r.below(15)); if (r.chance(40)) p.add(FL2_p_resetInterval, r.below(4)); if (r.chance(25)) p.add(FL2_p_bufferResize, r.below(5)); if (r.chance(30)) p.add(FL2_p_strategy, r.below(3)); if (r.chance(30)) p.add(FL2_p_divideAndConquer, r.below(2)); if (r.chance(30)) p.add(FL2_p_searchDepth, r.range(6, 40)); return p; }
static Bytes rdata(Rng &r, size_t lo, size_t hi) { size_t n = r.range(lo, hi); Bytes b = gen_data(r, n); b.resize(n);
    if (r.chance(25)) { static const char *ab = "abcd"; unsigned k = (unsigned)r.range(2, 4); for (auto &c : b) c = (u8)ab[r.below(k)]; }   // few long lists, shared between threads
    return b; }
static void good(const Bytes &out, const Bytes &in, const char *what) { FrameResult F = judge(out); if (F.st != REF_OK || F.r.out != in) vf_viol("wrong-output", "%s: %s", what, F.why.c_str()); else { vf_stat("outputs_decoded"); vf_distinct("nontrivial", hash_bytes(out)); } }
// everything a caller may do from its own thread between timed calls
static void poll(FL2_CStream *f, Rng &r) { for (int k = (int)r.range(1, 4); k; --k) { switch (r.below(6)) { case 0: case 1: case 2: { unsigned long long o = 0; FL2_getCStreamProgress(f, r.chance(80) ? &o : nullptr); vf_stat("progress_polls"); break; } case 3: FL2_remainingOutputSize(f); vf_stat("pending_polls"); break; case 4: FL2_getCCtxThreadCount(f); FL2_getCCtxDictProp(f); FL2_CStream_getParameter(f, FL2_p_searchDepth); break; default: { size_t c = FL2_waitCStream(f); if (FL2_isTimedOut(c)) vf_stat("polls_while_running"); } } } }
static Bytes cstream(FL2_CStream *f, const Bytes &in, Rng &r, size_t stop, bool &err) {
    Bytes out, buf(r.logsize(1000, 400000)); size_t pos = 0; int tail = 0; err = false; stop = std::min(stop, in.size()); bool whole = stop == in.size();
    for (;;) {
        FL2_outBuffer ob = { buf.data(), buf.size(), 0 }; size_t c;
        if (pos < stop && r.chance(15)) { FL2_dictBuffer d = { nullptr, 0 }; c = FL2_getDictionaryBuffer(f, &d); if (!FL2_isError(c) && d.size) { size_t n = std::min(d.size, stop - pos); memcpy(d.dst, in.data() + pos, n); pos += n; poll(f, r); c = FL2_updateDictionary(f, n); } if (!FL2_isError(c)) c = FL2_copyCStreamOutput(f, &ob); }
        else if (pos < stop) { FL2_inBuffer ib = { in.data() + pos, std::min(stop - pos, (size_t)r.logsize(5000, 1 << 20)), 0 }; c = FL2_compressStream(f, &ob, &ib); pos += ib.pos; if (r.chance(10)) { out.insert(out.end(), buf.begin(), buf.begin() + ob.pos); ob.pos = 0; if (!FL2_isError(c)) c = FL2_flushStream(f, &ob); vf_stat("flushes"); } }
        else if (!whole) { if (tail++ >= 2) return out; c = FL2_flushStream(f, &ob); }
        else { c = FL2_endStream(f, &ob); if (c == 0) { out.insert(out.end(), buf.begin(), buf.begin() + ob.pos); return out; } }
        out.insert(out.end(), buf.begin(), buf.begin() + ob.pos);
        if (FL2_isTimedOut(c)) { vf_stat("timeouts"); poll(f, r); } else if (FL2_isError(c)) { vf_viol("error", "compression: %s", enm(c)); err = true; return out; } else if (r.chance(30)) poll(f, r);
    }
}
static void ccase(u64 idx, Rng &r) {
    Params p = rparams(r); unsigned thr = (unsigned)r.range(1, 6), to = (unsigned)r.pick({ 0, 1, 1, 1, 2 }); int dual = (int)r.below(2); FL2_CStream *f = FL2_createCStreamMt(thr, dual); if (!f) return; apply_params(f, p); FL2_setCStreamTimeout(f, to); vf_info("stream %s threads=%u dual=%d timeout=%u", p.desc().c_str(), thr, dual, to);
    for (int k = (int)r.range(1, 3); k; --k) {
        size_t e = FL2_initCStream(f, 0); if (FL2_isError(e)) { vf_viol("error", "init: %s", enm(e)); break; }
        Bytes in = rdata(r, 1000, 1200000); bool part = r.chance(35), err; Bytes out = cstream(f, in, r, part ? r.below(in.size()) : in.size(), err); if (err) break; vf_stat("streams");
        if (!part) good(out, in, "stream"); else if (r.chance(60)) { FL2_cancelCStream(f); vf_stat("cancels"); } else vf_stat("reinitialised");
        vf_flush();
    }
    if (idx < 3) vf_sample("stream %s threads=%u dual=%d timeout=%u", p.desc().c_str(), thr, dual, to);
    FL2_freeCStream(f); (void)idx;
}
static Bytes frame_for(Rng &r, const Bytes &in, bool mt) { Bytes c(FL2_compressBound(in.size())); Params p; p.level = 1; p.dict = 1u << 20; p.add(FL2_p_dictionarySize, p.dict); if (mt) p.add(FL2_p_resetInterval, 1); FL2_CCtx *x = FL2_createCCtxMt((unsigned)r.range(2, 8)); apply_params(x, p); size_t z = FL2_compressCCtx(x, c.data(), c.size(), in.data(), in.size(), 0); FL2_freeCCtx(x); if (FL2_isError(z)) z = 0; c.resize(z); return c; }
static Bytes resets(Rng &r, Bytes &content) { if (r.chance(40)) { content = rdata(r, 1 << 20, 3 << 20); return frame_for(r, content, true); } SynthOpt o = synth_opt(r, 300000); o.target = r.range(50000, 400000); o.resets_pct = (int)r.pick({ 5, 30, 60 }); o.max_chunk = r.chance(60) ? r.logsize(2000, 60000) : 0; SynthOut s = synth_frame(r, o); content = s.content; return s.frame; }
static void dcase(u64 idx, Rng &r) {
    unsigned thr = (unsigned)r.range(1, 6), to = (unsigned)r.pick({ 0, 1, 1, 1, 2 }); FL2_DStream *d = FL2_createDStreamMt(thr); if (!d) return; if (r.chance(15)) FL2_setDStreamMemoryLimitMt(d, r.logsize(100000, 30 << 20)); FL2_setDStreamTimeout(d, to); vf_info("decompression threads=%u timeout=%u", thr, to);
    for (int k = (int)r.range(1, 3); k; --k) {
        Bytes content, fr = resets(r, content), bad; bool damaged = r.chance(20); if (damaged) { std::string h; fr = mutate_frame(r, fr, &h); }
        size_t e = FL2_initDStream(d); if (FL2_isError(e)) { vf_viol("error", "init: %s", enm(e)); break; } Bytes out; size_t pos = 0; bool cancel = false; size_t im = r.logsize(20000, 4 << 20), om = r.logsize(50000, 4 << 20); Bytes buf(om); u64 idle = 0;
        for (;;) { FL2_inBuffer ib = { fr.data() + pos, std::min(im, fr.size() - pos), 0 }; FL2_outBuffer ob = { buf.data(), om, 0 }; size_t c = FL2_decompressStream(d, &ob, &ib);
            while (FL2_isTimedOut(c)) { vf_stat("timeouts"); FL2_getDStreamProgress(d); vf_stat("progress_polls"); if (r.chance(3)) { FL2_cancelDStream(d); cancel = true; vf_stat("cancels"); break; } c = FL2_waitDStream(d); FL2_getDStreamProgress(d); }
            if (cancel) break; pos += ib.pos; out.insert(out.end(), buf.begin(), buf.begin() + ob.pos); if (r.chance(50)) FL2_getDStreamProgress(d);
            if (c == 0) { if (!damaged && out != content) vf_viol("wrong-output", "decompression"); else vf_stat("outputs_decoded"); vf_distinct("nontrivial", mix64(hash_bytes(fr), thr * 64 + im)); break; } if (FL2_isError(c)) { if (!damaged) vf_viol("error", "decompression: %s", enm(c)); break; }
            if (out.size() > (64u << 20) || (!ib.pos && !ob.pos && ++idle > 20)) break; }
        vf_stat("decompressions"); }
    (void)idx; FL2_freeDStream(d);
}
static void oneshots(u64, Rng &r) {
    Params p = rparams(r); unsigned thr = (unsigned)r.range(2, 8); Bytes in = rdata(r, 100000, 1500000), c(FL2_compressBound(in.size())); vf_info("one-shot %s threads=%u size=%zu", p.desc().c_str(), thr, in.size()); FL2_CCtx *x = FL2_createCCtxMt(thr); if (!x) return; apply_params(x, p);
    for (int k = (int)r.range(1, 2); k; --k) { size_t cap = r.chance(20) ? r.below(in.size() + 1) : c.size(); size_t z = FL2_compressCCtx(x, c.data(), cap, in.data(), in.size(), 0); vf_stat("oneshots"); if (FL2_isError(z)) { if (cap == c.size()) vf_viol("error", "compression: %s", enm(z)); continue; } Bytes f(c.begin(), c.begin() + z); good(f, in, "one-shot"); }
    FL2_freeCCtx(x);
    Bytes content, fr = resets(r, content), out(content.size() + 1); bool damaged = r.chance(25); if (damaged) { std::string h; fr = mutate_frame(r, fr, &h); } FL2_DCtx *d = FL2_createDCtxMt(thr);
    for (int k = 0; k < 2; ++k) { size_t z = FL2_decompressDCtx(d, out.data(), r.chance(20) ? out.size() / 2 : out.size(), fr.data(), fr.size()); vf_stat("decompressions"); if (!damaged && !FL2_isError(z) && (z != content.size() || memcmp(out.data(), content.data(), z))) vf_viol("wrong-output", "one-shot decompression"); }
    FL2_freeDCtx(d);
}
// several callers, each with objects of its own
static void parallel(u64, Rng &r, u64 seed) {
    unsigned k = (unsigned)r.range(2, 5); std::atomic<unsigned> ready{0}; std::atomic<int> bad{0}, done{0}; std::vector<std::thread> ts; std::vector<std::string> what(k); Rng g(seed); std::vector<Bytes> ins; for (unsigned i = 0; i < k; ++i) ins.push_back(rdata(g, 20000, 400000)); vf_info("%u callers", k);
    for (unsigned i = 0; i < k; ++i) ts.emplace_back([&, i] {
        Rng q(mix64(seed, i)); const Bytes &in = ins[i]; Params p = rparams(q); Bytes c(FL2_compressBound(in.size())), o(in.size() + 1); ready++; while (ready < k) {} int kind = (int)q.below(5); size_t z = 0;
        switch (kind) { case 0: z = FL2_compress(c.data(), c.size(), in.data(), in.size(), 1); break; case 1: z = FL2_compressMt(c.data(), c.size(), in.data(), in.size(), (int)q.range(1, 3), 2); break;
        case 2: { FL2_CCtx *x = FL2_createCCtxMt((unsigned)q.range(1, 3)); apply_params(x, p); z = FL2_compressCCtx(x, c.data(), c.size(), in.data(), in.size(), 0); FL2_freeCCtx(x); break; }
        default: { FL2_CStream *f = q.chance(50) ? FL2_createCStream() : FL2_createCStreamMt((unsigned)q.range(1, 3), (int)q.below(2)); apply_params(f, p); FL2_setCStreamTimeout(f, (unsigned)q.below(2)); FL2_initCStream(f, 0); FL2_inBuffer ib = { in.data(), in.size(), 0 }; FL2_outBuffer ob = { c.data(), c.size(), 0 }; size_t e; do { e = FL2_compressStream(f, &ob, &ib); FL2_getCStreamProgress(f, nullptr); } while ((FL2_isTimedOut(e) || !FL2_isError(e)) && ib.pos < ib.size); do e = FL2_endStream(f, &ob); while (FL2_isTimedOut(e) || e == 1); z = FL2_isError(e) ? e : ob.pos; FL2_freeCStream(f); } }
        if (FL2_isError(z)) { bad = 1; what[i] = enm(z); return; }
        size_t u; switch (q.below(4)) { case 0: u = FL2_decompress(o.data(), o.size(), c.data(), z); break; case 1: u = FL2_decompressMt(o.data(), o.size(), c.data(), z, 3); break; case 2: { Bytes f(c.begin(), c.begin() + z); Rng y(seed); DOpt d; d.in_max = d.out_max = 100000; FL2_DStream *s = FL2_createDStream(); DResult R = dstream_run(s, f, y, d); FL2_freeDStream(s); u = R.out.size(); o = R.out; break; } default: { FL2_DCtx *d = FL2_createDCtxMt(2); u = FL2_decompressDCtx(d, o.data(), o.size(), c.data(), z); FL2_freeDCtx(d); } }
        if (FL2_isError(u) || u != in.size() || memcmp(o.data(), in.data(), u)) { bad = 1; what[i] = FL2_isError(u) ? enm(u) : "other content"; } else done++; });
    for (auto &t : ts) t.join(); if (bad) for (auto &w : what) if (!w.empty()) vf_viol("wrong-output", "independent callers: %s", w.c_str()); vf_stat("independent_callers", (u64)done); vf_distinct("nontrivial", seed);
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv);
    vf_loop(a, [&](u64 i, Rng &r) { vfh_reset(); vfh_noise((int)r.pick({ 0, 10, 60, 200 }), (unsigned)r.pick({ 20, 200, 1000 }), r.next()); int k = (int)r.below(10); if (k < 4) ccase(i, r); else if (k < 6) dcase(i, r); else if (k < 8) oneshots(i, r); else parallel(i, r, r.next());
        vfh_noise(0, 1, 1); vf_stat("sync_events", vfh_events()); vf_stat("threads_started", vfh_tcreates()); vf_distinct("interleavings", vfh_order_hash()); });
    return 0;
}
