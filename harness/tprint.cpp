// T05: the text of a tensor.
#include "pc.h"
#include <fstream>
#include <iomanip>
MC_RULE("one case per (shape, contents, number format of the stream, kind of stream): the text is parsed back and compared with the tensor element by element and bracket by bracket; states are distinct texts");
struct Node { bool leaf = false; std::string v; std::vector<Node> c; };
static std::string err;
// '[' items ']' with commas between the values of a row; white space separates everything else
static bool parse(const std::string &s, size_t &p, Node &n) {
    auto ws = [&] { while (p < s.size() && isspace((unsigned char) s[p])) p++; };
    if (p >= s.size() || s[p] != '[') { err = "'[' expected at offset " + std::to_string(p); return false; }
    p++; bool comma = false;
    for (;;) {
        size_t from = p; ws();
        if (p >= s.size()) { err = "unclosed bracket"; return false; }
        if (s[p] == ']') { if (comma) { err = "value missing after a comma"; return false; } p++; return true; }
        Node k;
        if (s[p] == '[' && !n.c.empty() && s.substr(from, p - from).find('\n') == std::string::npos) { err = "two rows on one line"; return false; }
        if (s[p] == '[') { if (!parse(s, p, k)) return false; n.c.push_back(k); continue; }
        if (!n.c.empty() && !comma) { err = "values not separated"; return false; }
        size_t q = p; while (q < s.size() && !strchr(",[] \n\t", s[q])) q++;
        k.leaf = true; k.v = s.substr(p, q - p); p = q; if (k.v.empty()) { err = "value missing"; return false; }
        n.c.push_back(k); ws(); comma = false;
        if (p < s.size() && s[p] == ',') { comma = true; p++; }
    }
}
// expected nesting: rank 1 [values], rank 2 [rows], rank 3 and 4 one bracket per batch, holding its channels, holding their rows
static bool match(const Node &n, const std::vector<uint32_t> &dims, size_t k, const std::vector<std::string> &want, size_t &i) {
    if (k == dims.size()) {
        if (!n.leaf) { err = "a bracket where a value belongs"; return false; }
        if (n.v != want[i]) { err = "element " + std::to_string(i) + " is printed as " + n.v + ", expected " + want[i]; return false; }
        i++; return true;
    }
    if (n.leaf) { err = "a value where a bracket belongs"; return false; }
    if (n.c.size() != dims[k]) { err = std::to_string(n.c.size()) + " parts at nesting level " + std::to_string(k) + ", expected " + std::to_string(dims[k]); return false; }
    for (auto &c : n.c) if (!match(c, dims, k + 1, want, i)) return false;
    return true;
}
static const char *FMT[] = {"default", "precision 9", "fixed", "scientific", "showpos", "hexfloat"};
static void format(std::ostream &o, int f) { switch (f) { case 1: o << std::setprecision(9); break; case 2: o << std::fixed; break; case 3: o << std::scientific << std::setprecision(3); break; case 4: o << std::showpos; break; case 5: o << std::hexfloat; } }
static const char *DATA[] = {"small values", "distinct values", "special values"};
static void one(const Shape &s, int data, int fmt, bool file) {
    if (!mc::take()) return;
    auto d = [&] { return "print " + str(s) + " " + DATA[data] + " format " + FMT[fmt] + (file ? " to a file" : ""); }; MC_CASE(d);
    TP t = make(s); uint32_t n = t->num_elements();
    const float SP[] = {NAN, INFINITY, -INFINITY, -0.f, 1e-44f, 3.4e38f, -1.17e-38f, 0.1f, 16777217.f, 1e6f, 123456.7f};
    for (uint32_t i = 0; i < n; i++) t->access_blob(i) = data == 0 ? val(3, i) * 0.25f : data == 1 ? i + 0.5f : SP[i % 11];
    auto before = snap(t.get()); const Tensor &ct = *t;
    std::string txt;
    if (file) {
        std::string p = mc::scratch + "/text"; { std::ofstream o(p); format(o, fmt); o << ct; if (!o) return mc::fail("the stream failed"); } txt = mc::read_file(p);
    } else {
        std::ostringstream o; format(o, fmt); auto fl = o.flags(); auto pr = o.precision(); o << ct;
        if (!o) return mc::fail("the stream failed");
        if (o.flags() != fl || o.precision() != pr) return mc::fail("the stream's number format was changed");
        txt = o.str(); std::ostringstream o2; format(o2, fmt); o2 << ct << ct; if (o2.str() != txt + txt) return mc::fail("printing twice prints something else");
    }
    mc::step(); mc::check(n + 1);
    if (!same_bits(t.get(), before)) return mc::fail("printing changed the tensor");
    std::vector<std::string> want; for (auto v : before) { std::ostringstream o; format(o, fmt); o << v; want.push_back(o.str()); }
    std::string head = "shape: ("; for (size_t i = 0; i < s.size(); i++) { std::ostringstream o; if (fmt == 4) o << std::showpos; o << s[i]; head += (i ? ", " : "") + o.str(); } head += ")\ndata:\n";
    if (txt.compare(0, head.size(), head)) return mc::fail("text begins with \"" + txt.substr(0, head.size()) + "\", expected \"" + head + "\"");
    size_t p = head.size(); std::vector<Node> top;
    bool nl = true;
    while (p < txt.size()) { if (isspace((unsigned char) txt[p])) { nl |= txt[p] == '\n'; p++; continue; } if (!nl) return mc::fail("two batches on one line"); nl = false; Node k; if (!parse(txt, p, k)) return mc::fail(err); top.push_back(k); }
    Shape dims = s.size() == 3 ? Shape{s[0], s[1], 1, s[2]} : s; size_t i = 0; Node all;
    if (s.size() >= 3) all.c = top; else { if (top.size() != 1) return mc::fail("not one bracket"); all = top[0]; }
    if (!match(all, dims, 0, want, i)) return mc::fail(err);
    mc::outcome(mc::hash_bytes(txt.data(), txt.size()));
}
void mc::explore() {
    std::vector<Shape> S; uint32_t E = thorough ? 5 : 4;
    for (uint32_t a = 1; a <= (thorough ? 70u : 40u); a++) S.push_back({a});
    for (uint32_t a = 1; a <= (thorough ? 12u : 8u); a++) for (uint32_t b = 1; b <= (thorough ? 12u : 8u); b++) S.push_back({a, b});
    for (uint32_t a = 1; a <= E; a++) for (uint32_t b = 1; b <= E; b++) for (uint32_t c = 1; c <= E + 1; c++) S.push_back({a, b, c});
    for (uint32_t a = 1; a <= E; a++) for (uint32_t b = 1; b <= E; b++) for (uint32_t c = 1; c <= E; c++) for (uint32_t e = 1; e <= E; e++) S.push_back({a, b, c, e});
    for (uint32_t b : {255u, 256u, 257u, 300u}) for (Shape s : {Shape{b}, Shape{b, 2}, Shape{2, b}, Shape{b, 1, 2}, Shape{1, b, 2}, Shape{1, 2, b}, Shape{b, 1, 1, 2}, Shape{1, b, 1, 2}, Shape{1, 1, b, 2}, Shape{1, 2, 1, b}}) S.push_back(s);
    S.push_back({65537}); S.push_back({1, 65537}); S.push_back({65537, 1}); S.push_back({1, 1, 65537, 1});
    for (auto &s : S) for (int dt = 0; dt < 3; dt++) for (int f = 0; f < 6; f++) for (int file = 0; file < 2; file++) { if (nelem(s) > 1000 && (f > 1 || file)) continue; one(s, dt, f, file); }
}
