// I01: every record sequence up to the depth bound loads exactly.
#include "wmodel.h"
MC_RULE("a state is one distinct tuple of tensor contents after loading; a case is one well-formed weights file (record sequence, shapes, shared markers, name lengths), read once into tensors holding a marker, all compared bit by bit with the file; spare tensors behind the last must stay untouched");

static std::vector<Rec> alphabet(bool big) {
    std::vector<Rec> a;
    auto conv = [&](Shape k, int m, uint32_t nb) { a.push_back({'C', k, m, {nb}, "Conv"}); };
    if (!big) {
        conv({2, 3, 3, 2}, 1, 2); conv({1, 2, 2, 3}, 1, 0); conv({3, 2, 1, 3}, 3, 3); conv({2, 1, 1, 2}, 3, 0); conv({0, 0, 0, 0}, 0, 2); conv({0, 0, 0, 0}, 0, 0);
        a.push_back({'G', {2, 3}, 1, {3}, "Gemm"}); a.push_back({'G', {3, 1}, 1, {0}, "MatMul"}); a.push_back({'G', {0, 0}, 0, {2}, "Gemm"}); a.push_back({'G', {1, 4}, 1, {0}, "Transpose"});
        a.push_back({'B', {}, 0, {2, 2, 2, 2}, "BatchNormalization"}); a.push_back({'B', {}, 0, {0, 3, 0, 3}, "BatchNormalization"});
        a.push_back({'A', {}, 0, {4}, "Add"}); a.push_back({'A', {}, 0, {0}, "Add"});
        return a;
    }
    for (uint32_t o = 1; o < 4; o++) for (uint32_t i = 1; i < 4; i++) for (uint32_t h = 1; h < 4; h++) for (uint32_t w = 1; w < 4; w++) for (int nb = 0; nb < 2; nb++) { conv({o, i, h, w}, 1, nb * o); if (h == 1) conv({o, i, h, w}, 3, nb * o); }
    for (const char *t : {"Gemm", "MatMul", "Transpose"}) for (uint32_t h = 1; h < 5; h++) for (uint32_t w = 1; w < 5; w++) for (int nb = 0; nb < 2; nb++) a.push_back({'G', {h, w}, 1, {nb * w}, t});
    for (const char *t : {"Gemm", "MatMul", "Transpose"}) for (int nb = 0; nb < 4; nb++) a.push_back({'G', {0, 0}, 0, {(uint32_t) nb}, t});
    for (uint32_t n = 1; n < 4; n++) for (int m = 0; m < 16; m++) a.push_back({'B', {}, 0, {m & 1 ? n : 0, m & 2 ? n : 0, m & 4 ? n : 0, m & 8 ? n : 0}, "BatchNormalization"});
    for (uint32_t n = 0; n < 6; n++) a.push_back({'A', {}, 0, {n}, "Add"});
    for (uint32_t n = 0; n < 3; n++) conv({0, 0, 0, 0}, 0, n);
    return a;
}

static void one(const std::vector<Rec> &recs, const std::string &net, const std::vector<std::string> &names, uint32_t salt, int brank = 1) {
    if (!mc::take()) return;
    auto d = [&] { std::string s = "weights file: network name of " + std::to_string(net.size()) + " characters, records "; for (size_t i = 0; i < recs.size() && i < 12; i++) s += rstr(recs[i]) + "(name " + std::to_string(names[i].size()) + ") "; if (recs.size() > 12) s += "... " + std::to_string(recs.size()); return s; };
    MC_CASE(d);
    FileBuf f = write_weights(recs, net, names, salt);
    Net n; net_for(recs, n, brank); n.add_k({2, 2, 2, 2}); n.add_b({3});        // spare tensors
    check_read(f.s, n, path_of("w"));
}
static std::vector<std::string> nm(size_t n) { std::vector<std::string> v; for (size_t i = 0; i < n; i++) v.push_back("layer_" + std::to_string(i)); return v; }

void mc::explore() {
    auto small = alphabet(false), big = alphabet(true);
    uint32_t salt = 1;
    // sequences over the small alphabet
    int depth = mc::thorough ? 5 : 4;
    for (int len = 0; len <= depth; len++) {
        if (len == 0) { one({}, "net", {}, salt); continue; }
        Odo o(std::vector<uint32_t>(len, small.size()));
        do { std::vector<Rec> r; for (auto i : o.v) r.push_back(small[i]); one(r, "net", nm(len), salt++); } while (o.next());
    }
    // every shape alone and in pairs
    for (auto &a : big) for (int br = 1; br < (a.kind == 'A' ? 5 : 3); br++) one({a}, "net", nm(1), salt++, br);
    for (auto &a : big) for (auto &b : big) if (mc::thorough || (salt++ % 5) == 0 || &a == &b) one({a, b}, "net", nm(2), salt);
    for (int br = 2; br < 5; br++) for (auto &a : small) for (auto &b : small) one({a, {'A', {}, 0, {6}, "Add"}, b}, "net", nm(3), salt++, br);
    // one axis at a time, to values far beyond
    for (uint32_t x = 1; x <= (mc::thorough ? 300u : 90u); x++) {
        for (int ax = 0; ax < 4; ax++) { Shape k{2, 2, 2, 2}; k[ax] = x; one({{'C', k, 1, {k[0]}, "Conv"}}, "n", nm(1), salt++); if (ax != 2) { k[2] = 1; one({{'C', k, 3, {k[0]}, "Conv"}}, "n", nm(1), salt++); } }
        one({{'G', {x, 3}, 1, {3}, "Gemm"}}, "n", nm(1), salt++); one({{'G', {3, x}, 1, {x}, "MatMul"}}, "n", nm(1), salt++);
        one({{'B', {}, 0, {x, x, x, x}, "BatchNormalization"}}, "n", nm(1), salt++); one({{'A', {}, 0, {x}, "Add"}}, "n", nm(1), salt++);
        one(std::vector<Rec>(x, small[0]), "n", nm(x), salt++); one(std::vector<Rec>(x, small[10]), "n", nm(x), salt++); one(std::vector<Rec>(x, small[6]), "n", nm(x), salt++);
    }
    for (uint32_t x : {1000u, 1023u, 1024u, 1025u, 4096u, 5000u, 65535u, 65536u, 70000u}) { one({{'G', {x, 3}, 1, {3}, "Gemm"}}, "n", nm(1), salt++); one({{'G', {2, x}, 1, {x}, "Gemm"}}, "n", nm(1), salt++); one({{'A', {}, 0, {x}, "Add"}}, "n", nm(1), salt++); one({{'C', {x, 1, 1, 1}, 1, {x}, "Conv"}}, "n", nm(1), salt++); one({{'C', {1, x, 1, 1}, 1, {1}, "Conv"}}, "n", nm(1), salt++); one({{'B', {}, 0, {x, x, x, x}, "BatchNormalization"}}, "n", nm(1), salt++); }
    // several million values in one record (the fully connected layers of known networks)
    for (auto &k : std::vector<Shape>{{1, 1048577}, {1100, 1000}, {2049, 2049}, {4097, 4100}}) one({small[0], {'G', k, 1, {k[0]}, "Gemm"}, small[0]}, "n", nm(3), salt++);
    one({{'C', {1030, 1025, 1, 1}, 1, {1030}, "Conv"}}, "n", nm(1), salt++); one({{'C', {1, 1, 1030, 1025}, 1, {1}, "Conv"}}, "n", nm(1), salt++); one({{'C', {1, 2, 1, 1100000}, 3, {1}, "Conv"}}, "n", nm(1), salt++); one({{'B', {}, 0, {1100000, 1100000, 1100000, 1100000}, "BatchNormalization"}}, "n", nm(1), salt++); one({{'A', {}, 0, {1100000}, "Add"}}, "n", nm(1), salt++);
    // names of any length and content
    std::vector<uint32_t> lens; for (uint32_t l = 0; l <= (mc::thorough ? 600u : 300u); l++) lens.push_back(l);
    for (uint32_t l : {1000u, 4094u, 4095u, 4096u, 4097u, 65536u}) lens.push_back(l);
    for (auto l : lens) for (int fillc : {(int) 'a', 32, 0xff, 0}) for (int where = 0; where < 3; where++) {
        std::string s(l, (char) fillc); std::vector<Rec> r{small[0], small[6]}; auto names = nm(2);
        if (where) names[where - 1] = s;
        one(r, where ? "net" : s, names, salt++);
    }
    for (int c = 0; c < 256; c++) if (c != '\n') for (int where = 0; where < 3; where++) { std::string s(3, (char) c); std::vector<Rec> r{small[0], small[10]}; auto names = nm(2); if (where) names[where - 1] = s; one(r, where ? "net" : s, names, salt++); }
}
