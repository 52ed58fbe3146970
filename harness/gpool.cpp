// L05: global pooling; the extremum is placed at every position.
#include "pc.h"
MC_RULE("one case per (rank, batches, channels, extents, position of the extremal element, sign pattern); both global operators run on each; non-trivial = distinct output digests");
static void one(const Shape &s, uint32_t pos, int pat) {
    if (!mc::take()) return;
    auto d = [&] { return "globalpool in=" + str(s) + " extremum_at=" + std::to_string(pos) + " pattern=" + std::to_string(pat); };
    MC_CASE(d);
    TP in = make(s); Shape os = s; uint32_t sp = 1; for (size_t i = 2; i < s.size(); i++) { sp *= s[i]; os[i] = 1; }
    TP out = make(os), out2 = make(os);
    for (uint32_t i = 0; i < in->num_elements(); i++) {
        float v = val(41 + pat, i, 50) * 0.25f;
        if (pat == 1) v = -std::fabs(v) - 1;
        if (pat == 2) v = std::fabs(v);
        if (pat == 3) v = -std::fabs(v) * 1e6f;
        if (pat == 4) v = i % 3 ? -INFINITY : -3.4e38f;    // maximum only
        if (pat == 5) v *= 0x1p-130f;
        in->access_blob(i) = v;
    }
    for (uint32_t c = 0; c < s[0] * s[1]; c++) {      // different extremum position per channel
        float top = pat == 1 ? -0.5f - c : pat == 3 ? -1e5f - c : pat == 4 ? (c % 3 == 0 ? -INFINITY : c % 3 == 1 ? INFINITY : -3.39e38f) : pat == 5 ? 0x1p-120f : 100.f + c;
        in->access_blob(c * sp + (pos + c) % sp) = top;
    }
    if (pat == 6) in->access_blob((pos * 5 + s[0]) % in->num_elements()) = NAN;
    std::vector<float> before = snap(in.get());
    fill_const(out.get(), GARBAGE); fill_const(out2.get(), GARBAGE);
    naive::GlobalMaxPooling gm("g", 0, op_type::GlobalMaxPool);
    naive::GlobalAveragePooling ga("g", 0, op_type::GlobalAveragePool);
    gm.run(in.get(), out.get()); ga.run(in.get(), out2.get()); mc::step(2);
    std::vector<double> rm, ra; double maxabs = 0; for (float v : before) maxabs = std::max(maxabs, (double) std::fabs(v)); if (sp <= 100) maxabs = 0;
    for (uint32_t c = 0; c < s[0] * s[1]; c++) { double m = -INFINITY, t = 0; for (uint32_t i = 0; i < sp; i++) { double v = before[c * sp + i]; m = std::max(m, v); t += v; } if (t != t && pat == 6) m = NAN; rm.push_back(m); ra.push_back(t / sp); }
    if (pat == 6) { if (expect_apart(out.get(), rm, 0, 0, "global max") && expect_apart(out2.get(), ra, 2e-6, 1e-6, "global average")) mc::outcome(digest(out2.get())); return; }
    if (expect_exact(out.get(), rm, "global max") && (pat == 4 || expect_close(out2.get(), ra, 2e-6, (pat == 5 ? 0x1p-147 : 1e-6) + 6e-8 * sp * maxabs, "global average"))) { mc::outcome(digest(out.get())); mc::outcome(digest(out2.get())); }
}
void mc::explore() {
    uint32_t E = mc::thorough ? 9 : 7;
    for (uint32_t B = 1; B <= 3; B++) for (uint32_t C = 1; C <= 4; C++) {
        for (uint32_t H = 1; H <= E; H++) for (uint32_t W = 1; W <= E; W++) for (uint32_t pos = 0; pos < H * W; pos++) for (int pat = 0; pat < 7; pat++) one({B, C, H, W}, pos, pat);
        for (uint32_t W = 1; W <= (mc::thorough ? 40u : 20u); W++) for (uint32_t pos = 0; pos < W; pos++) for (int pat = 0; pat < 7; pat++) one({B, C, W}, pos, pat);
    }
    for (uint32_t L = 5; L <= (mc::thorough ? 600u : 300u); L++) for (int pat = 0; pat < 4; pat++) {
        for (uint32_t pos : {0u, L / 2, L - 1}) { one({1, 2, L, 1}, pos, pat); one({1, 2, 1, L}, pos, pat); one({1, 1, L, 3}, pos * 3 + 2, pat); one({2, 1, 2, L}, pos + L, pat); one({1, 2, L}, pos, pat); }
        one({1, L, 2, 2}, 3, pat); one({L, 2, 1, 2}, 1, pat); one({1, L, 3}, 2, pat); one({L, 2, 3}, 0, pat);
    }
    for (uint32_t q : {14u, 56u, 64u, 100u}) for (int pat = 0; pat < 4; pat++) one({1, 2, q, q}, q * q - 1, pat);
    // element counts and extents beyond 16 bits
    for (int pat = 0; pat < 4; pat++) { one({1, 1, 257, 256}, 65791, pat); one({1, 1, 65537, 1}, 65536, pat); one({2, 1, 1, 65540}, 0, pat); one({1, 2, 70000}, 69999, pat); one({1, 66000, 2}, 1, pat); one({1, 66000, 1, 1}, 0, pat); one({66000, 1, 2}, 1, pat); one({300, 300, 1, 2}, 1, pat); }
}
