// T02: padding of every small tensor.
#include "pc.h"
MC_RULE("one case per (shape, per-side padding, fill value); run through expand_with_padding and through copy_with_padding_into on a fresh tensor and on one that holds other data; states are distinct result digests");
static const float inits[] = {0.f, -1.5f, 1e-40f, -INFINITY, 3e38f, -0.0f};
static void one(const Shape &s, std::vector<uint32_t> p, int ini) {
    if (!mc::take()) return;
    auto d = [&] { return "pad " + str(s) + " by " + str(p) + " with " + (ini < 0 ? "default" : fstr(inits[ini])); };
    MC_CASE(d);
    size_t r = s.size();
    Shape o = s;
    uint32_t pt = 0, pl = 0;
    if (r == 3) { o[2] += p[0] + p[1]; pl = p[0]; }
    else { o[r - 2] += p[0] + p[2]; o[r - 1] += p[1] + p[3]; pt = p[0]; pl = p[1]; }
    TP t = make(s); fill(t.get(), 3, 500);
    auto src = snap(t.get());
    std::vector<uint32_t> pc = p;                                   // exact-size buffer, red zones behind it
    uint32_t *pad = new uint32_t[p.size()]; std::copy(p.begin(), p.end(), pad);
    float f = ini < 0 ? 0.f : inits[ini];
    uint32_t BC = 1; for (size_t i = 0; i + (r == 3 ? 1 : 2) < r; i++) BC *= s[i];
    uint32_t H = r == 3 ? 1 : s[r - 2], W = s[r - 1], OH = r == 3 ? 1 : o[r - 2], OW = o[r - 1];
    std::vector<float> ref(BC * OH * OW, f);
    for (uint32_t c = 0; c < BC; c++) for (uint32_t y = 0; y < H; y++) for (uint32_t x = 0; x < W; x++) ref[(c * OH + y + pt) * OW + x + pl] = src[(c * H + y) * W + x];
    for (int how = 0; how < 3; how++) {
        Tensor *e;
        TP fresh;
        if (how == 0) { e = ini < 0 ? t->expand_with_padding(pad) : t->expand_with_padding(pad, f); fresh.reset(e); }
        else { fresh = make(o); if (how == 2) for (uint32_t i = 0; i < fresh->num_elements(); i++) fresh->access_blob(i) = 77.f + i; e = ini < 0 ? t->copy_with_padding_into(fresh.get(), pad) : t->copy_with_padding_into(fresh.get(), pad, f); if (e != fresh.get()) { mc::fail("copy_with_padding_into does not return its destination"); break; } }
        mc::step();
        const char *w = how == 2 ? "copy_with_padding_into a used tensor: " : how ? "copy_with_padding_into: " : "expand_with_padding: ";
        bool ok = e->num_dimensions() == r && e->num_elements() == ref.size() && e->width() == OW && (r == 3 || e->height() == OH) && (r == 2 || (e->num_batches() == s[0] && e->num_channels() == s[1]));
        if (!ok) { mc::fail(std::string(w) + "wrong shape"); break; }
        for (uint32_t i = 0; i < ref.size(); i++) if (!(e->access_blob(i) == ref[i])) { mc::fail(std::string(w) + "element " + std::to_string(i) + " is " + fstr(e->access_blob(i)) + ", expected " + fstr(ref[i])); break; }
        mc::check(ref.size());
        if (!same_bits(t.get(), src)) { mc::fail(std::string(w) + "source changed"); break; }
        if (!std::equal(p.begin(), p.end(), pad)) { mc::fail(std::string(w) + "padding array changed"); break; }
        mc::outcome(digest(e));
    }
    delete[] pad;
}
void mc::explore() {
    uint32_t E = mc::thorough ? 4 : 3, P = mc::thorough ? 4 : 3;
    for (uint32_t h = 1; h <= E; h++) for (uint32_t w = 1; w <= E; w++)
        for (uint32_t a = 0; a <= P; a++) for (uint32_t b = 0; b <= P; b++) for (uint32_t c = 0; c <= P; c++) for (uint32_t e = 0; e <= P; e++) {
            for (int i = -1; i < 6; i++) { one({h, w}, {a, b, c, e}, i); if (mc::thorough || (a + b + c + e + i) % 2 == 0) one({1 + (a & 1), 1 + (b + h) % 3, h, w}, {a, b, c, e}, i); }
            for (uint32_t B = 1; B <= 2; B++) for (uint32_t C = 1; C <= 2; C++) one({B, C, h, w}, {a, b, c, e}, B == C ? -1 : 1);
        }
    for (uint32_t B = 1; B <= 3; B++) for (uint32_t C = 1; C <= 4; C++) for (uint32_t w = 1; w <= 6; w++) for (uint32_t a = 0; a <= 4; a++) for (uint32_t b = 0; b <= 4; b++)
        for (int i = -1; i < 6; i++) one({B, C, w}, {a, b}, i);
    // one long axis or one long padding side at a time
    for (uint32_t L = 5; L <= (mc::thorough ? 300u : 140u); L++) {
        one({L, 2}, {1, 2, 0, 3}, 1); one({3, L}, {2, 1, 1, 0}, -1); one({L, 1, 2, 2}, {1, 0, 0, 2}, 1); one({1, L, 2, 2}, {0, 1, 2, 0}, -1); one({2, 1, L, 2}, {1, 2, 1, 1}, 1); one({1, 2, 2, L}, {1, 1, 2, 2}, -1);
        one({L, 2, 2}, {1, 2}, 1); one({2, L, 1}, {2, 1}, -1); one({1, 2, L}, {3, 1}, 1);
        for (int k = 0; k < 4; k++) { std::vector<uint32_t> p = {1, 1, 1, 1}; p[k] = L; one({1, 2, 2, 3}, p, 1); one({2, 3}, p, -1); if (k < 2) one({1, 2, 3}, {p[0], p[1]}, 1); }
    }
    // element counts and extents beyond 16 bits
    one({1, 1, 1100000}, {3, 2}, 1); one({1, 2, 1030, 1025}, {1, 2, 3, 4}, 1); one({1100, 1000}, {1, 2, 3, 4}, -1);
    one({257, 256}, {1, 2, 3, 4}, 1); one({1, 2, 257, 256}, {1, 2, 3, 4}, 1); one({2, 3}, {300, 300, 300, 300}, -1); one({1, 2, 2, 3}, {260, 250, 270, 280}, 1); one({65540, 2}, {1, 1, 1, 1}, 1); one({2, 65540}, {1, 1, 1, 1}, 1); one({2, 2}, {65540, 0, 1, 0}, 1); one({2, 2}, {0, 1, 0, 65540}, 1); one({66000, 1, 2, 1}, {0, 1, 1, 0}, 1); one({1, 66000, 1, 2}, {1, 0, 0, 1}, -1); one({300, 300, 2}, {1, 0}, 1); one({1, 1, 65540}, {1, 2}, 1); one({1, 2, 3}, {65540, 66000}, -1);
}
