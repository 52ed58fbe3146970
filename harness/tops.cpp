// T03: element-wise addition, channel addition, scaling, concatenation.
#include "pc.h"
MC_RULE("one case per (operation, shapes, operand valuation); states are distinct result digests");
static bool eqbits(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static float special(uint32_t salt, uint32_t i) {
    static const float v[] = {0.f, -0.f, 1.f, -1.f, 0.1f, 1e-40f, 3e38f, -3e38f, 16777216.f, 1.f / 3, 1e-20f, -7.25f, 1e20f};
    return v[mc::mix(salt * 7919ull + i) % 13];
}
static void fillv(Tensor *t, uint32_t salt, int kind) { for (uint32_t i = 0; i < t->num_elements(); i++) t->access_blob(i) = kind ? special(salt, i) : val(salt, i, 900); }

static void add(const Shape &s, int kind, bool self) {
    if (!mc::take()) return;
    auto d = [&] { return "add_tensor " + str(s) + " kind=" + std::to_string(kind) + (self ? " to itself" : ""); };
    MC_CASE(d);
    TP a = make(s), b = make(s), by = make(s); fillv(a.get(), 1, kind); fillv(b.get(), 2, kind); fillv(by.get(), 3, kind);
    auto sa = snap(a.get()), sb = snap(self ? a.get() : b.get()), sy = snap(by.get());
    bool ok = a->add_tensor(self ? a.get() : b.get()); mc::step();
    if (!ok) return mc::fail("add_tensor of equal shapes reports failure");
    for (uint32_t i = 0; i < sa.size(); i++) if (!eqbits(a->access_blob(i), sa[i] + sb[i])) return mc::fail("element " + std::to_string(i) + " is " + fstr(a->access_blob(i)) + ", expected " + fstr(sa[i] + sb[i]));
    if (!self && !same_bits(b.get(), sb)) return mc::fail("the added tensor changed");
    if (!same_bits(by.get(), sy)) return mc::fail("an unrelated tensor changed");
    mc::check(sa.size()); mc::outcome(digest(a.get()));
}
static void chan(const Shape &s, int kind) {
    uint32_t B = s.size() >= 3 ? s[0] : 1, C = s.size() >= 3 ? s[1] : 1;
    for (uint32_t b = 0; b < B; b++) for (uint32_t c = 0; c < C; c++) {
        uint32_t q = b * C + c; if (B * C > 2000 && q && q + 1 < B * C && (q & 0xff) != 0 && (q & 0xff) != 0xff) continue;
        if (B * C > 2000 && (q & 0x3fff) > 1 && q + 1 < B * C && q != 0xffff && q != 0x100 && q != 0xff) continue;
        if (!mc::take()) continue;
        auto d = [&] { return "add_channel " + str(s) + " batch " + std::to_string(b) + " channel " + std::to_string(c) + " kind=" + std::to_string(kind); };
        MC_CASE(d);
        TP a = make(s), o = make(s); fillv(a.get(), 4, kind); fillv(o.get(), 5, kind);
        auto sa = snap(a.get()), so = snap(o.get());
        bool ok = a->add_channel(o.get(), b, c); mc::step();
        if (!ok) { mc::fail("add_channel reports failure"); continue; }
        uint32_t n = sa.size() / (B * C), lo = (b * C + c) * n;
        for (uint32_t i = 0; i < sa.size(); i++) {
            float e = i >= lo && i < lo + n ? sa[i] + so[i] : sa[i];
            if (!eqbits(a->access_blob(i), e)) { mc::fail("element " + std::to_string(i) + " is " + fstr(a->access_blob(i)) + ", expected " + fstr(e)); break; }
        }
        if (!same_bits(o.get(), so)) mc::fail("the added tensor changed");
        mc::check(sa.size()); mc::outcome(digest(a.get()));
    }
}
static void mul(const Shape &s, float f, int kind, bool self) {
    if (!mc::take()) return;
    auto d = [&] { return "mul_with_factor " + str(s) + " by " + fstr(f) + " kind=" + std::to_string(kind) + (self ? " in place" : ""); };
    MC_CASE(d);
    TP a = make(s), o = make(s); fillv(a.get(), 6, kind); fill_const(o.get(), GARBAGE);
    auto sa = snap(a.get());
    Tensor *dst = self ? a.get() : o.get();
    a->mul_with_factor(dst, f); mc::step();
    for (uint32_t i = 0; i < sa.size(); i++) if (!eqbits(dst->access_blob(i), sa[i] * f)) return mc::fail("element " + std::to_string(i) + " is " + fstr(dst->access_blob(i)) + ", expected " + fstr(sa[i] * f));
    if (!self && !same_bits(a.get(), sa)) return mc::fail("the source changed");
    mc::check(sa.size()); mc::outcome(digest(dst));
}
static void cat(const std::vector<uint32_t> &ch, uint32_t B, const Shape &sp) {
    if (!mc::take()) return;
    auto d = [&] { return "concatenate channels " + str(ch) + " batches=" + std::to_string(B) + " spatial=" + str(sp); };
    MC_CASE(d);
    uint32_t C = 0, S = nelem(sp); for (auto c : ch) C += c;
    auto mk = [&](uint32_t c) { Shape s = {B, c}; s.insert(s.end(), sp.begin(), sp.end()); return make(s); };
    std::vector<TP> in; std::vector<std::vector<float>> si; TP out = mk(C); fill_const(out.get(), GARBAGE);
    Tensor **arr = new Tensor *[ch.size()];
    for (size_t k = 0; k < ch.size(); k++) { in.push_back(mk(ch[k])); fill(in[k].get(), 40 + k, 3000); si.push_back(snap(in[k].get())); arr[k] = in[k].get(); }
    out->concatenate_from(ch.size(), arr, 1); mc::step();
    uint32_t o = 0;
    for (uint32_t b = 0; b < B; b++) for (size_t k = 0; k < ch.size(); k++) for (uint32_t i = 0; i < ch[k] * S; i++, o++) {
        float e = si[k][b * ch[k] * S + i];
        if (out->access_blob(o) != e) { mc::fail("element " + std::to_string(o) + " is " + fstr(out->access_blob(o)) + ", expected " + fstr(e) + " from input " + std::to_string(k)); b = B; break; }
    }
    mc::check(o);
    for (size_t k = 0; k < ch.size(); k++) { if (!same_bits(in[k].get(), si[k])) mc::fail("input " + std::to_string(k) + " changed"); if (arr[k] != in[k].get()) mc::fail("input array changed"); }
    mc::outcome(digest(out.get()));
    delete[] arr;
}
void mc::explore() {
    uint32_t E = mc::thorough ? 4 : 3;
    std::vector<Shape> shapes;
    for (uint32_t a = 1; a <= E; a++) for (uint32_t b = 1; b <= E; b++) for (uint32_t c = 1; c <= E; c++) { for (uint32_t e = 1; e <= E; e++) shapes.push_back({a, b, c, e}); shapes.push_back({a, b, c}); }
    for (uint32_t a = 1; a <= 12; a++) for (uint32_t b = 1; b <= 12; b++) shapes.push_back({a, b});
    for (uint32_t a = 1; a <= 70; a++) shapes.push_back({a});
    for (uint32_t L : {7u, 8u, 9u, 15u, 16u, 17u, 31u, 33u, 64u, 65u, 255u, 257u, 1025u}) { shapes.push_back({L, 1, 2}); shapes.push_back({1, L, 2}); shapes.push_back({2, 1, L}); shapes.push_back({1, 2, L, 1}); shapes.push_back({1, 2, 1, L}); shapes.push_back({1, L, 2, 2}); shapes.push_back({L, 2, 1, 2}); shapes.push_back({2, L}); shapes.push_back({L, 2}); shapes.push_back({L}); }
    for (auto &q : std::vector<Shape>{{66000}, {257, 256}, {70000, 2}, {2, 300, 300}, {66000, 1, 2}, {1, 66000, 2}, {1, 2, 66000}, {1, 1, 257, 257}, {2, 2, 65540, 1}, {257, 257, 1, 1}}) shapes.push_back(q);      // beyond 16 bits
    for (auto &s : shapes) for (int kind = 0; kind < 2; kind++) {
        add(s, kind, false); add(s, kind, true);
        if (s.size() >= 2) chan(s, kind);      // for very many channels only the first, the last and those around 2^8 and 2^16
        for (float f : {0.f, 1.f, -1.f, 0.1f, 2.f, -3.7f, 1e20f, 1e-30f}) { mul(s, f, kind, false); mul(s, f, kind, true); }
    }
    // all channel tuples of 1..4 inputs
    uint32_t CM = mc::thorough ? 5 : 4;
    for (const Shape &sp : {Shape{}, Shape{1}, Shape{3}, Shape{1, 1}, Shape{2, 3}, Shape{3, 1}}) for (uint32_t B = 1; B <= 3; B++)
        for (uint32_t n = 1; n <= 4; n++) { Odo o(std::vector<uint32_t>(n, CM)); for (bool g = true; g; g = o.next()) { std::vector<uint32_t> ch; for (auto v : o.v) ch.push_back(v + 1); cat(ch, B, sp); } }
    for (uint32_t n = 5; n <= 12; n++) for (uint32_t B = 1; B <= 2; B++) for (const Shape &sp : {Shape{}, Shape{2}, Shape{2, 2}}) { std::vector<uint32_t> ch; for (uint32_t k = 0; k < n; k++) ch.push_back(1 + (k * 5 + n) % 4); cat(ch, B, sp); }
    for (uint32_t L : {8u, 16u, 33u, 64u, 129u, 300u}) for (uint32_t B = 1; B <= 2; B++) for (const Shape &sp : {Shape{}, Shape{1}, Shape{5}, Shape{3, 4}}) { cat({L, 1}, B, sp); cat({1, L, 2}, B, sp); cat({L, L + 1, 3}, B, sp); }
    for (const Shape &sp : {Shape{300}, Shape{17, 19}, Shape{1, 257}, Shape{64, 3}}) cat({1, 3, 2}, 2, sp);
    cat({66000, 2, 3}, 2, {}); cat({2, 66000}, 2, {2}); cat({1, 2}, 2, {65540}); cat({1, 2}, 2, {257, 256}); cat({1, 1}, 66000, {}); { std::vector<uint32_t> many; for (uint32_t k = 0; k < 300; k++) many.push_back(1 + k % 3); cat(many, 2, {2}); cat(many, 1, {16, 17}); }
}
