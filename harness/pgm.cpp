// I05: PGM writer and reader.
#include "files.h"
MC_RULE("a state is a distinct file or delivered image; a case writes one float image, parses the file independently, and reads it back with one padding and range, or reads one generated PGM file; every pixel and border value is compared");
struct Pgm { bool ok = false; uint32_t w = 0, h = 0, maxv = 0; std::vector<unsigned char> px; };
static Pgm parse(const std::string &s) {                     // independent PGM parser (netpbm grammar)
    Pgm g; size_t p = 0; if (s.compare(0, 2, "P5") != 0) return g; p = 2;
    auto num = [&](uint32_t &v) { bool any = false; for (;;) { if (p < s.size() && s[p] == '#') { while (p < s.size() && s[p] != '\n') p++; } else if (p < s.size() && isspace((unsigned char) s[p])) p++; else break; } v = 0; while (p < s.size() && isdigit((unsigned char) s[p])) { v = v * 10 + (s[p++] - '0'); any = true; } return any; };
    if (p >= s.size() || !isspace((unsigned char) s[p]) || !num(g.w) || !num(g.h) || !num(g.maxv)) return g;
    if (p >= s.size() || !isspace((unsigned char) s[p])) return g;
    p++; if (s.size() - p != (size_t) g.w * g.h) return g;
    g.px.assign(s.begin() + p, s.end()); g.ok = true; return g;
}
// reads the file and compares with the pixels; returns false after a failure
static bool read_back(const std::string &p, uint32_t h, uint32_t w, const std::vector<unsigned char> &px, uint8_t pad, float lo, float hi) {
    float *im = nullptr; uint16_t H = 999, W = 999; int f0 = fds();
    mc::heap_arm(); int rc = read_pgm(&im, p.c_str(), pad, lo, hi, &H, &W); mc::armed = false; mc::step();
    if (rc) { mc::fail("reading a valid PGM returned " + std::to_string(rc)); return false; }
    if (H != h || W != w) { mc::fail("dimensions read as " + std::to_string(H) + "x" + std::to_string(W)); return false; }
    uint64_t hs = 1;
    for (uint32_t r = 0; r < h + 2 * pad; r++) for (uint32_t c = 0; c < w + 2 * pad; c++) {
        double e = lo; if (r >= pad && r < h + pad && c >= pad && c < w + pad) e = lo + px[(size_t) (r - pad) * w + (c - pad)] / 255.0 * ((double) hi - lo);
        float g = im[(size_t) r * (w + 2 * pad) + c];
        if (!(std::fabs(g - e) <= 1e-6 + 1e-6 * (std::fabs(lo) + std::fabs(hi)))) { mc::fail("row " + std::to_string(r) + " column " + std::to_string(c) + " read as " + fstr(g) + ", expected " + fstr(e)); return false; }
        hs = hs * 1000003 + (uint32_t) (int64_t) (g * 64);
    }
    mc::check((h + 2 * pad) * (w + 2 * pad)); mc::outcome(mc::mix(hs));
    mc::armed = true; free(im); if (long l = mc::heap_disarm()) { mc::fail("leaked " + std::to_string(l) + " blocks"); return false; }
    if (fds() != f0) { mc::fail("file left open"); return false; }
    return true;
}
static void rt(const char *what, uint32_t h, uint32_t w, const std::vector<float> &v, uint8_t pad, float lo, float hi) {
    if (!mc::take()) return;
    auto d = [&] { std::string s = std::string(what) + ": write " + std::to_string(h) + "x" + std::to_string(w) + " image {"; for (size_t i = 0; i < v.size() && i < 6; i++) s += fstr(v[i]) + " "; return s + "}, read back with padding " + std::to_string(pad) + " range " + fstr(lo) + ".." + fstr(hi); }; MC_CASE(d);
    std::string p = path_of("g"); unlink(p.c_str()); int f0 = fds();
    std::vector<float> in = v;
    mc::heap_arm(); int rc = write_pgm(in.data(), h, w, p.c_str()); long l = mc::heap_disarm(); mc::step();
    if (rc) { mc::fail("write_pgm returned " + std::to_string(rc)); return; }
    if (l || fds() != f0) { mc::fail("write_pgm leaked"); return; }
    if (memcmp(in.data(), v.data(), v.size() * 4)) { mc::fail("write_pgm changed the image"); return; }
    Pgm g = parse(mc::read_file(p));
    if (!g.ok || g.w != w || g.h != h || g.maxv != 255) { mc::fail("file is not a PGM of the image's dimensions"); return; }
    double mn = v[0], mx = v[0]; for (auto x : v) { mn = std::min<double>(mn, x); mx = std::max<double>(mx, x); }
    for (size_t i = 0; i < v.size(); i++) {
        if (mx > mn) { double e = (v[i] - mn) / (mx - mn) * 255; if (std::fabs(g.px[i] - e) > 1.0) { mc::fail("pixel " + std::to_string(i) + " written as grey level " + std::to_string(g.px[i]) + ", its position is " + std::to_string(e)); return; } }
        else if (g.px[i] != g.px[0]) { mc::fail("constant image is not constant"); return; }
    }
    mc::check(v.size());
    read_back(p, h, w, g.px, pad, lo, hi);
}
static std::string mk(uint32_t h, uint32_t w, const std::vector<std::string> &com, const std::vector<unsigned char> &px) { std::string s = "P5\n"; for (auto &c : com) s += "#" + c + "\n"; s += std::to_string(w) + " " + std::to_string(h) + "\n255\n"; return s + std::string(px.begin(), px.end()); }
static void rd(const char *what, uint32_t h, uint32_t w, const std::vector<std::string> &com, const std::vector<unsigned char> &px, uint8_t pad, float lo, float hi) {
    if (!mc::take()) return;
    auto d = [&] { return std::string(what) + ": read PGM " + std::to_string(h) + "x" + std::to_string(w) + ", " + std::to_string(com.size()) + " comment lines" + (com.size() ? " (first of " + std::to_string(com[0].size()) + " characters)" : "") + ", first pixel " + std::to_string(px[0]) + ", padding " + std::to_string(pad) + ", range " + fstr(lo) + ".." + fstr(hi); }; MC_CASE(d);
    std::string p = path_of("g"); put_file(p, mk(h, w, com, px));
    read_back(p, h, w, px, pad, lo, hi);
}
static void bad(const char *what, const std::string &s, uint8_t pad = 0) {
    if (!mc::take()) return;
    auto d = [&] { return std::string(what) + ": damaged PGM \"" + s.substr(0, 40) + "\" (" + std::to_string(s.size()) + " bytes), padding " + std::to_string(pad); }; MC_CASE(d);
    std::string p = path_of("g"); put_file(p, s);
    float *im = nullptr; uint16_t H, W; int f0 = fds(); mc::heap_arm(); int rc = read_pgm(&im, p.c_str(), pad, 0, 1, &H, &W); long l = mc::heap_disarm(); mc::step(); mc::check();
    if (!rc) mc::fail("damaged PGM accepted"); else if (l || fds() != f0) mc::fail("leaked " + std::to_string(l) + " blocks or the file");
    mc::outcome(mc::hash_bytes(s.data(), s.size()));
}
static std::vector<unsigned char> hp(uint32_t n, uint32_t salt) { std::vector<unsigned char> v(n); for (uint32_t i = 0; i < n; i++) v[i] = mc::mix(salt * 1000003ull + i); return v; }
void mc::explore() {
    const float R[][2] = {{0, 1}, {-1, 1}, {-0.5f, 0.5f}, {0, 255}, {2, 2}, {-3, -1}, {-1000, 5000}};
    std::vector<float> A{-2000, -1, 0, 0.5f, 1, 300, 1e6f}; if (mc::thorough) { A.push_back(-3e38f); A.push_back(3e38f); A.push_back(1e-40f); }
    uint32_t salt = 1;
    // every assignment of the value alphabet to small images
    for (auto &sh : std::vector<std::pair<int, int>>{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}}) {
        Odo o(std::vector<uint32_t>(sh.first * sh.second, A.size()));
        do { std::vector<float> v; for (auto i : o.v) v.push_back(A[i]); rt("values", sh.first, sh.second, v, salt % 3, R[salt % 7][0], R[salt % 7][1]); salt++; } while (o.next());
    }
    // shapes with values around different centres and scales
    for (uint32_t h = 1; h <= 6; h++) for (uint32_t w = 1; w <= 6; w++) for (double c : {0.0, 1.0, -5000.0, 5000.0, 1e30, -1e30, 1e-39}) for (double s : {1e-3, 1.0, 1e4, 1e37}) for (int p = 0; p < 3; p++) {
        std::vector<float> v(h * w); for (size_t i = 0; i < v.size(); i++) v[i] = (float) (c + s * ((int) (mc::mix(salt * 31 + i) % 2001) - 1000) / 1000.0); salt++;
        rt("centre/scale", h, w, v, p, R[salt % 7][0], R[salt % 7][1]);
    }
    for (float c : {0.f, -0.f, 1.f, -1.f, 5000.f, -5000.f, 3e38f, -3e38f, 1e-40f, 255.f}) for (int n = 1; n < 5; n++) for (auto &r : R) rt("constant", n, 2, std::vector<float>(2 * n, c), n % 3, r[0], r[1]);
    for (uint32_t x = 1; x <= (mc::thorough ? 300u : 80u); x++) { std::vector<float> v(x * 3); for (size_t i = 0; i < v.size(); i++) v[i] = (float) (int) (mc::mix(salt * 77 + i) % 1000); salt++; rt("size", x, 3, v, x % 3, 0, 1); rt("size", 3, x, v, x % 3, 0, 1); }
    for (uint32_t x : {255u, 256u, 257u, 1000u, 4096u, 32768u, 65535u}) { std::vector<float> v(x); for (size_t i = 0; i < v.size(); i++) v[i] = (float) (i % 251); rt("size", x, 1, v, 0, 0, 1); rt("size", 1, x, v, 1, 0, 1); }
    { std::vector<float> v(300 * 300); for (size_t i = 0; i < v.size(); i++) v[i] = (float) (i % 9973); rt("size", 300, 300, v, 1, 0, 1); }
    // valid files
    for (int b = 0; b < 256; b++) for (int n = 1; n < 5; n++) for (int com = 0; com < 3; com++) {
        std::vector<unsigned char> px(n, (unsigned char) b); for (int i = 1; i < n; i++) px[i] = (unsigned char) (b + 85 * i);
        rd("first byte", n == 4 ? 2 : 1, n == 4 ? 2 : n, std::vector<std::string>(com, " pico-cnn"), px, b % 3, R[b % 7][0], R[b % 7][1]);
    }
    const int ws[] = {' ', '\t', '\n', '\v', '\f', '\r', '0', '#', 255, 0};
    for (int a : ws) for (int b : ws) for (int c : ws) for (int com = 0; com < 2; com++) rd("leading white space", 1, 3, std::vector<std::string>(com, "x"), {(unsigned char) a, (unsigned char) b, (unsigned char) c}, 0, 0, 255);
    for (uint32_t l = 0; l <= 300; l++) { rd("comment length", 2, 3, {std::string(l, 'c')}, hp(6, salt++), 1, 0, 1); rd("comment length", 2, 3, {"a", std::string(l, '#')}, hp(6, salt++), 0, 0, 1); rd("comment length", 2, 3, {std::string(l, '7')}, hp(6, salt++), 0, 0, 1); }
    for (int n = 0; n < 12; n++) rd("comment lines", 2, 2, std::vector<std::string>(n, "line 5 5"), hp(4, salt++), 0, 0, 1);
    for (int p = 0; p < 256; p++) rd("padding", 2, 3, {}, hp(6, salt++), p, -1, 1);
    for (uint32_t h = 1; h <= 12; h++) for (uint32_t w = 1; w <= 12; w++) for (int p = 0; p < 3; p++) rd("shape", h, w, {}, hp(h * w, salt++), p, 0, 1);
    { std::vector<unsigned char> all(256); for (int i = 0; i < 256; i++) all[i] = i; for (auto &r : R) rd("all levels", 16, 16, {}, all, 2, r[0], r[1]); }
    for (uint32_t x : {100u, 255u, 256u, 257u, 999u, 1000u, 9999u, 10000u, 65535u}) { rd("size", 1, x, {}, hp(x, salt++), 0, 0, 1); rd("size", x, 1, {}, hp(x, salt++), 1, 0, 1); }
    // damage
    for (uint32_t h = 1; h <= 3; h++) for (uint32_t w = 1; w <= 3; w++) for (int com = 0; com < 3; com++) for (int p = 0; p < 2; p++) { std::string s = mk(h, w, std::vector<std::string>(com, " pico-cnn"), hp(h * w, salt++)); for (size_t k = 0; k < s.size(); k++) bad("cut", s.substr(0, k), p); }
    for (int pos = 0; pos < 2; pos++) for (int b = 0; b < 256; b++) { std::string s = mk(2, 2, {}, hp(4, 1)); if ((unsigned char) s[pos] != b) { s[pos] = (char) b; bad("magic", s); } }
    for (const char *s : {"P5\nx 2\n255\nabcd", "P5\n2 x\n255\nabcd", "P5\n2 2\nx\nabcd", "P5\n\n", "P5\n2\n", "P5\n2 2\n", "P5\n2 2 255", "P5\n#\n", "P5\n#", "FF\n2\n2\n", "P5\n2 2\n255", "GIF89a"}) bad("header", s);
    for (int k = 0; k < 3; k++) {
        if (!mc::take()) continue;
        std::string p = k == 0 ? mc::scratch + "/missing" : k == 1 ? mc::scratch : "";
        auto d = [&] { return "unreadable path " + p; }; MC_CASE(d);
        float *im = nullptr; uint16_t H, W; mc::heap_arm(); int rc = read_pgm(&im, p.c_str(), 0, 0, 1, &H, &W); long q = mc::heap_disarm(); mc::step(); mc::check();
        if (!rc) mc::fail("unreadable file accepted"); else if (q) mc::fail("leak");
        mc::outcome(k);
    }
}
