// T01: shape, initialisation, addressing and copying of tensors of every small shape.
#include "pc.h"
MC_RULE("one case per shape (all small shapes of rank 1..4, plus long and power-of-two-straddling extents on each axis); in each, every multi-index is written through one access path and read back through all others; states are distinct (shape, contents) digests");

static void one(const Shape &s) {
    if (!mc::take()) return;
    auto d = [&] { return "tensor " + str(s); };
    MC_CASE(d);
    uint32_t n = nelem(s), r = s.size();
    TP before = make(s); fill_const(before.get(), GARBAGE);     // neighbours in memory
    TP t = make(s); mc::step();
    TP after = make(s); fill_const(after.get(), GARBAGE);
    Tensor &T = *t;
    if (T.num_dimensions() != r) return mc::fail("num_dimensions is " + std::to_string(T.num_dimensions()));
    if (T.num_elements() != n) return mc::fail("num_elements is " + std::to_string(T.num_elements()));
    if (T.size_bytes() != n * sizeof(fp_t)) return mc::fail("size_bytes is " + std::to_string(T.size_bytes()));
    uint32_t B = r >= 3 ? s[0] : 1, C = r >= 3 ? s[1] : 1, H = r == 4 ? s[2] : r == 2 ? s[0] : 1, W = s[r - 1];
    if (T.num_batches() != B) return mc::fail("num_batches is " + std::to_string(T.num_batches()));
    if (T.num_channels() != C) return mc::fail("num_channels is " + std::to_string(T.num_channels()));
    if (r >= 2 && T.height() != H) return mc::fail("height is " + std::to_string(T.height()));
    if (r >= 2 && T.width() != W) return mc::fail("width is " + std::to_string(T.width()));
    for (uint32_t i = 0; i < n; i++) { float v = T.access_blob(i); uint32_t bits; memcpy(&bits, &v, 4); if (bits) return mc::fail("element " + std::to_string(i) + " of a new tensor is " + fstr(v)); }
    mc::check(n);
    // write through multi-index access, in an order unrelated to memory order; read through the flat view
    auto at = [&](uint32_t b, uint32_t c, uint32_t y, uint32_t x) -> float & {
        if (r == 1) return T.access(x);
        if (r == 2) return T.access(y, x, T.width());
        if (r == 3) return T.access(b, c, x, T.num_channels(), T.width());
        return T.access(b, c, y, x, T.num_channels(), T.height(), T.width());
    };
    auto flat = [&](uint32_t b, uint32_t c, uint32_t y, uint32_t x) { return ((b * C + c) * H + y) * W + x; };
    auto tag = [](uint32_t i) { return 1.f + i % 16777213u; };       // distinct up to 2^24 elements
    for (uint32_t x = W; x-- > 0;) for (uint32_t c = 0; c < C; c++) for (uint32_t y = H; y-- > 0;) for (uint32_t b = 0; b < B; b++) at(b, c, y, x) = tag(flat(b, c, y, x));
    for (uint32_t i = 0; i < n; i++) if (T.access_blob(i) != tag(i)) return mc::fail("element " + std::to_string(i) + " (flat) holds " + fstr(T.access_blob(i)) + " after writing through the multi-index");
    for (uint32_t b = 0; b < B; b++) for (uint32_t c = 0; c < C; c++) {
        float *p = T.get_ptr_to_channel(b, c);
        if (p != &at(b, c, 0, 0)) return mc::fail("get_ptr_to_channel(" + std::to_string(b) + "," + std::to_string(c) + ") is not the channel's first element");
        for (uint32_t i = 0; i < H * W; i++) if (p[i] != tag(flat(b, c, 0, 0) + i)) return mc::fail("channel pointer reads a foreign element");
    }
    mc::check(2 * n);
    // write through the flat view, read through the multi-index
    for (uint32_t i = 0; i < n; i++) T.access_blob(i) = val(7, i, 1000);
    for (uint32_t b = 0; b < B; b++) for (uint32_t c = 0; c < C; c++) for (uint32_t y = 0; y < H; y++) for (uint32_t x = 0; x < W; x++)
        if (at(b, c, y, x) != val(7, flat(b, c, y, x), 1000)) return mc::fail("multi-index reads another element than the flat index");
    mc::check(n);
    for (uint32_t i = 0; i < n; i++) if (before->access_blob(i) != GARBAGE || after->access_blob(i) != GARBAGE) return mc::fail("another tensor was modified");
    mc::outcome(digest(&T) ^ mc::hash_bytes(s.data(), s.size() * 4));
    // copying: into the same shape, into every other shape of the same size that is a simple regrouping
    std::vector<Shape> to = {s, {n}, {1, n}, {n, 1}, {1, n, 1}, {1, 1, 1, n}, {n, 1, 1, 1}};
    auto src = snap(&T);
    for (auto &q : to) {
        TP dst = make(q), other = make(q); fill_const(dst.get(), GARBAGE); fill_const(other.get(), GARBAGE);
        T.copy_data_into(dst.get()); mc::step();
        if (!same_bits(dst.get(), src)) return mc::fail("copy into " + str(q) + " differs from the source");
        if (!same_bits(&T, src)) return mc::fail("copying changed the source");
        if (dst->num_dimensions() != q.size() || dst->num_elements() != n) return mc::fail("copying changed the destination's shape");
        for (uint32_t i = 0; i < n; i++) if (other->access_blob(i) != GARBAGE) return mc::fail("copying changed an unrelated tensor");
        // independence: later writes do not travel
        dst->access_blob(n / 2) = GARBAGE;
        if (!same_bits(&T, src)) return mc::fail("copy and source share storage");
        mc::check(n);
    }
    // non-float-clean payloads are copied bit for bit
    uint32_t pats[] = {0x7fc00001u, 0x80000000u, 0x00000001u, 0x7f800000u, 0xff7fffffu, 0xdeadbeefu};
    for (uint32_t i = 0; i < n; i++) { uint32_t p = pats[i % 6] ^ (i / 6); memcpy(&T.access_blob(i), &p, 4); }
    src = snap(&T); TP dst = make(s); T.copy_data_into(dst.get()); mc::step();
    if (!same_bits(dst.get(), src)) return mc::fail("copy is not bit exact");
}
void mc::explore() {
    uint32_t E = mc::thorough ? 7 : 5;
    for (uint32_t a = 1; a <= E; a++) for (uint32_t b = 1; b <= E; b++) for (uint32_t c = 1; c <= E; c++) for (uint32_t d = 1; d <= E; d++) one({a, b, c, d});
    uint32_t E3 = mc::thorough ? 16 : 9;
    for (uint32_t a = 1; a <= E3; a++) for (uint32_t b = 1; b <= E3; b++) for (uint32_t c = 1; c <= E3; c++) one({a, b, c});
    uint32_t E2 = mc::thorough ? 80 : 40;
    for (uint32_t a = 1; a <= E2; a++) for (uint32_t b = 1; b <= E2; b++) one({a, b});
    for (uint32_t a = 1; a <= (mc::thorough ? 3000u : 600u); a++) one({a});
    for (uint32_t L : {31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 129u, 255u, 256u, 257u, 511u, 513u, 1023u, 1024u, 1025u, 4097u, 65535u, 65536u, 65537u}) {
        one({L}); one({L, 1}); one({1, L}); one({2, L}); one({L, 3});
        one({L, 1, 2}); one({2, L, 1}); one({1, 3, L}); one({L, 1, 2, 1}); one({1, L, 1, 2}); one({2, 1, L, 1}); one({1, 2, 1, L});
        if (L < 2000) { one({2, L, 3, 2}); one({2, 2, L, 3}); one({3, 2, 2, L}); one({L, 2, 2, 3}); }
    }
    if (mc::thorough) one({1, 256, 300, 300});
    one({3, 64, 100, 7});
    // element counts and extents beyond 16 bits
    one({257, 256}); one({256, 1, 257}); one({1, 300, 300}); one({257, 257, 1, 1}); one({1, 257, 257, 1}); one({1, 1, 257, 257}); one({1, 70, 35, 33}); one({2, 66000, 1, 1}); one({70000, 2}); one({2, 70000, 2});
}
