// C08: streaming decompression gives the same bytes, result codes and final input position however the stream is cut.
#include "declib.h"
static FL2_DStream *g_s, *g_m; static unsigned g_t;
static void one(u64 idx, Rng &r, bool slow) {
    // one to three frames in a row, then bytes that belong to somebody else
    struct Fr { Bytes f; FrameResult F; bool raw; }; std::vector<Fr> fr; int k = r.chance(65) ? 1 : (int)r.range(2, 3); size_t cap = slow ? 60000 : r.chance(12) ? 3000000 : r.chance(30) ? 400000 : 30000; size_t total = 0; std::string how;
    for (int i = 0; i < k; ++i) { Fr x; x.raw = false; if (r.chance(40)) { x.f = enc_frame(r, cap); how += "encoder "; } else { SynthOpt o = synth_opt(r, cap); if (r.chance(15)) o.target = 0; if (r.chance(30)) { o.resets_pct = (int)r.pick({ 60, 90 }); o.max_chunk = r.pick<size_t>({ 5, 60, 3000, 0 }); if (o.max_chunk) o.target = std::min<size_t>(o.target, o.max_chunk * 3000); } x.f = synth_frame(r, o).frame; how += "synth "; }
        x.F = ref_frame(x.f.data(), x.f.size()); if (x.F.st != REF_OK) { vf_viol("oracle", "not a valid stream: %s", x.F.why.c_str()); return; } x.f.resize(x.F.consumed); total += x.f.size(); if (!x.F.has_hash && r.chance(25)) x.raw = true; fr.push_back(std::move(x)); }
    Bytes junk; switch (r.below(4)) { case 0: break; case 1: junk.resize(r.range(1, 40)); for (auto &b : junk) b = (u8)r.next(); break; case 2: junk.assign(r.range(1, 3000), 0); break; default: junk = gen_data(r, r.logsize(1, 200000)); }
    int runs = (int)r.range(2, 4);
    for (int run = 0; run < runs; ++run) {
        bool mt = r.chance(60); FL2_DStream *&keep = mt ? g_m : g_s; bool fresh = !keep || r.chance(25); if (fresh) { FL2_freeDStream(keep); unsigned t = (unsigned)r.range(1, 5); keep = mt ? FL2_createDStreamMt(t) : FL2_createDStream(); if (mt) g_t = t; } FL2_DStream *d = keep;
        unsigned timeout = r.chance(25) ? (unsigned)r.range(1, 3) : 0; size_t limit = r.chance(25) ? r.logsize(1000, 16 << 20) : (size_t)1 << 30;
        FL2_setDStreamTimeout(d, timeout); FL2_setDStreamMemoryLimitMt(d, limit);
        if (timeout) vf_stat("runs_with_timeout"); if (limit < (1u << 30)) vf_stat("runs_with_limit"); if (mt) vf_stat("runs_multithreaded");
        vf_info("run %d mt=%d(%u) fresh=%d timeout=%u limit=%zu", run, mt, g_t, fresh, timeout, limit);
        size_t ends = 0;
        for (size_t i = 0; i < fr.size(); ++i) {
            // the caller has everything that follows in its buffer
            Bytes in(fr[i].f.begin() + fr[i].raw, fr[i].f.end()); for (size_t j = i + 1; j < fr.size(); ++j) in.insert(in.end(), fr[j].f.begin() + fr[j].raw, fr[j].f.end()); in.insert(in.end(), junk.begin(), junk.end());
            size_t want = fr[i].F.consumed - fr[i].raw, olen = fr[i].F.r.out.size();
            DOpt o; o.raw = fr[i].raw; o.prop = fr[i].f[0]; o.in_max = r.chance(20) ? in.size() : std::max<size_t>(r.logsize(1, std::max<size_t>(in.size(), 2)), want / 3000); o.out_max = r.chance(20) ? olen + 1 : std::max<size_t>(r.logsize(1, std::max<size_t>(olen, 2)), olen / 3000); o.style = (int)r.pick({ 0, 0, 0, 3, 4 });
            if (want < 4000 && olen < 20000 && r.chance(40)) o.style = (int)r.range(1, 2); if (o.style == 3 && r.chance(60)) o.out_max = olen + r.below(100); o.out_max = std::max<size_t>(o.out_max, 1); o.strict = r.chance(45); if (o.strict) vf_stat("runs_piece_after_piece"); if (o.strict && o.style != 3 && want < 60000 && r.chance(50)) { o.style = 0; o.in_max = (size_t)r.range(1, 90); }
            size_t pf = 0, pg = 0; bool over = false, late = false; const Bytes &ref = fr[i].F.r.out; size_t bad = SIZE_MAX;
            o.observe = [&](size_t fed, size_t got, size_t c) { if (fed > want) over = true; if (!FL2_isError(c) && c != 0 && c != 1) vf_viol("result", "FL2_decompressStream returns %zu", c); if (c == 1 && fed == want && got == olen) late = true; if (c == 0 && (fed != want || got != olen)) bad = got; pf = fed; pg = got; };
            DResult D = dstream_run(d, in, r, o); vf_stat("stream_calls", D.calls); vf_stat("timeouts", D.timeouts); vf_stat("streams_decoded");
            char w[200]; snprintf(w, sizeof w, "%s style %d pieces <= %zu/%zu, frame %zu of %zu (%zu bytes, %zu content), %zu bytes follow", mt ? "multithreaded" : "single", o.style, o.in_max, o.out_max, i, fr.size(), want, olen, in.size() - want);
            if (D.bad) { vf_viol("position", "%s: %s", w, D.bad); return; }
            if (D.stalled) { vf_viol("stalled", "%s", w); return; }
            if (D.stuck) { vf_viol("stalled", "%s: %zu bytes out, %zu in, the next piece is not taken although there is room for output", w, D.out.size(), D.consumed); return; }
            if (!D.ended) { vf_viol("not-completed", "%s: %s after %zu bytes out, %zu in", w, FL2_isError(D.code) ? enm(D.code) : "no more progress", D.out.size(), D.consumed); return; }
            if (D.out.size() != olen || memcmp(D.out.data(), ref.data(), olen)) { vf_viol("content", "%s: %zu bytes delivered or other content", w, D.out.size()); return; }
            if (D.consumed != want) { vf_viol(D.consumed > want ? "took-following-bytes" : "end-before-stream-end", "%s: returned 0 with the input position at %zu", w, D.consumed); return; }
            if (bad != SIZE_MAX) { vf_viol("early-end", "%s: 0 returned after %zu content bytes", w, bad); return; }
            if (over) { vf_viol("took-following-bytes", "%s: the input position was beyond the end of the stream", w); return; }
            if (late) { vf_viol("late-end", "%s: 1 returned although everything was consumed and delivered", w); return; }
            ++ends;
        }
        if (ends > 1) vf_stat("concatenated_sequences");
        // input given only in part, then the stream abandoned: what was delivered is the start of the content
        if (r.chance(25)) { Bytes part(fr[0].f.begin(), fr[0].f.begin() + r.below(fr[0].f.size())); DOpt o; o.style = (int)r.pick({ 0, 3, 4 }); o.in_max = o.out_max = std::max<size_t>(part.size(), 1); DResult D = dstream_run(d, part, r, o); vf_stat("abandoned"); if (D.ended) vf_viol("early-end", "0 returned for a prefix"); else if (D.out.size() > fr[0].F.r.out.size() || memcmp(D.out.data(), fr[0].F.r.out.data(), D.out.size())) vf_viol("content", "the bytes delivered for a prefix are not the start of the content"); if (FL2_isError(D.code) && FL2_getErrorCode(D.code) != FL2_error_buffer) vf_viol("prefix-error", "%s for the start of a valid stream", enm(D.code)); }
        u64 h = hash_bytes(fr[0].f) ^ mix64(run, mt, timeout); vf_distinct("nontrivial", h);
    }
    vf_stat("frames", k); if (fr[0].F.r.dict_resets > 1) vf_stat("multi_block_streams"); vf_stat("trailing_bytes", junk.size());
    if (idx < 4) vf_sample("%zu frame(s) %s%zu bytes, %zu content bytes in the first, %zu dictionary resets, %zu trailing bytes, %d runs", fr.size(), how.c_str(), total, fr[0].F.r.out.size(), fr[0].F.r.dict_resets, junk.size(), runs);
}
int main(int argc, char **argv) { Args a = vf_args(argc, argv); bool slow = a.extra.find("slow") != std::string::npos; int noise = a.extra.find("noise") != std::string::npos ? 30 : 0; if (noise) vfh_noise(noise, 100, a.seed); vf_loop(a, [&](u64 i, Rng &r) { one(i, r, slow); }); return 0; }
