// Frames for the decoder workloads: from the encoder, from the synthesiser (legal and with one defect), mutated, or plain noise.
#pragma once
#include "fl2h.h"
struct Src { Bytes f; std::string how; bool clean = false; };      // clean: known legal, content known to the caller through ref_frame
inline Bytes enc_frame(Rng &r, size_t cap) {
    Params p = gen_params(r, PP_NOOMIT | PP_SMALLDICT); if (p.level > 5) p.level = 2; p.high = false; size_t n = gen_size(r, cap); Bytes in = gen_data(r, n); Bytes c(FL2_compressBound(in.size()));
    FL2_CCtx *cc = FL2_createCCtxMt(r.chance(60) ? 1 : (unsigned)r.range(2, 4)); apply_params(cc, p); size_t z = FL2_compressCCtx(cc, c.data(), c.size(), in.data(), in.size(), 0); FL2_freeCCtx(cc); if (FL2_isError(z)) z = 0; c.resize(z); return c;
}
inline SynthOpt synth_opt(Rng &r, size_t cap) { SynthOpt o; o.target = r.chance(20) ? r.below(40) : r.logsize(1, cap); o.dict_prop = (u8)(r.chance(60) ? r.below(8) : r.chance(90) ? r.below(17) : r.below(24)); o.hash = r.chance(60); o.resets_pct = (int)r.pick({ 0, 5, 20, 60 }); o.big_chunks = r.chance(10); o.max_far_pct = (int)r.pick({ 0, 10, 60 }); if (r.chance(25)) { o.max_chunk = r.logsize(1, 3000); o.target = std::min<size_t>(o.target, o.max_chunk * 4000); } o.no_unc_reset = r.chance(30); return o; }
inline Src gen_src(Rng &r, size_t cap, int clean_pct = 30) {
    Src s;
    if (r.chance(6)) { s.f.resize(r.below(200)); for (auto &b : s.f) b = (u8)r.next(); if (s.f.size() > 1 && r.chance(60)) { s.f[0] = (u8)r.below(20); s.f[1] = r.pick<u8>({ 0, 1, 0xE0, 0xFF, 2, 0x80, 0xC0 }); } s.how = "noise"; return s; }
    if (r.chance(25)) { s.f = enc_frame(r, cap); s.how = "encoder"; s.clean = true; }
    else { SynthOpt o = synth_opt(r, cap); if (r.chance(35)) o.defect = (int)r.range(1, SYNTH_DEFECTS - 1); s.f = synth_frame(r, o).frame; s.how = std::string("synth:") + synth_defect_name(o.defect); s.clean = !o.defect; }
    if (s.clean && (int)r.below(100) >= clean_pct) { s.clean = false; std::string h; s.f = mutate_frame(r, s.f, &h); s.how += "/" + h; }
    return s;
}
