// I04: MNIST readers.
#include "files.h"
#ifdef ENDIAN
MC_RULE("byte order: a case converts 2^24 consecutive words of the 2^32, each compared with its four bytes in reverse order and converted back");
void mc::explore() {
    for (uint64_t hi = 0; hi < 256; hi++) {
        if (!mc::take()) continue;
        auto d = [&] { return "change_endianess of words " + std::to_string(hi << 24) + " .. +2^24"; }; MC_CASE(d);
        uint64_t acc = 0; 
        for (uint32_t lo = 0; lo < (1u << 24); lo++) {
            uint32_t x = (uint32_t) (hi << 24) | lo, r = change_endianess(x);
            if (r != __builtin_bswap32(x)) { mc::fail("change_endianess(" + std::to_string(x) + ") is " + std::to_string(r)); break; }
            acc = acc * 31 + r;
        }
        mc::step(1 << 24); mc::check(1 << 24); mc::outcome(acc);
    }
}
#else
MC_RULE("a state is a distinct delivered array (or distinct refused file); a case is one image or label file read with one requested count, padding and range; every delivered value is compared with lower+(pixel/255)(upper-lower), borders with the lower bound");
static std::string be(uint32_t v) { std::string s; for (int i = 3; i >= 0; i--) s += (char) (v >> (8 * i)); return s; }
static std::string images(uint32_t n, uint32_t h, uint32_t w, uint32_t salt) { std::string s = be(2051) + be(n) + be(h) + be(w); for (uint32_t i = 0; i < n * h * w; i++) s += (char) (salt == 0 ? i : mc::mix(salt * 1000003ull + i)); return s; }
static std::string labels(uint32_t n, uint32_t salt) { std::string s = be(2049) + be(n); for (uint32_t i = 0; i < n; i++) s += (char) (salt == 0 ? i : mc::mix(salt * 7919ull + i)); return s; }

// want: -1 = must return 0 (refused), -2 = either
static void img(const char *what, const std::string &bytes, uint32_t want_n, uint32_t h, uint32_t w, uint32_t req, uint8_t pad, float lo, float hi, bool either = false, bool full_desc = true) {
    if (!mc::take()) return;
    auto d = [&] { return std::string(what) + ": image file of " + std::to_string(bytes.size()) + " bytes, " + std::to_string(h) + "x" + std::to_string(w) + ", requested " + std::to_string(req) + ", padding " + std::to_string(pad) + ", range " + fstr(lo) + ".." + fstr(hi); }; MC_CASE(d);
    std::string p = path_of("m"); put_file(p, bytes);
    float **im = nullptr; int f0 = fds();
    mc::heap_arm();
    uint32_t n = read_mnist_images(p.c_str(), &im, req, pad, lo, hi);
    mc::armed = false; mc::step();
    if (fds() != f0) { mc::fail("file left open"); return; }
    if (n != want_n && !(either && n == 0)) { mc::fail("returned " + std::to_string(n) + " images instead of " + std::to_string(want_n)); return; }
    uint64_t hsh = n;
    for (uint32_t i = 0; i < n; i++) for (uint32_t r = 0; r < h + 2 * pad; r++) for (uint32_t c = 0; c < w + 2 * pad; c++) {
        double e = lo;
        if (r >= pad && r < h + pad && c >= pad && c < w + pad) e = lo + ((unsigned char) bytes[16 + (size_t) i * h * w + (r - pad) * w + (c - pad)] / 255.0) * ((double) hi - lo);
        float g = im[i][r * (w + 2 * pad) + c];
        if (!(std::fabs(g - e) <= 1e-6 + 1e-6 * (std::fabs(lo) + std::fabs(hi)))) { mc::fail("image " + std::to_string(i) + " row " + std::to_string(r) + " column " + std::to_string(c) + " is " + fstr(g) + ", expected " + fstr(e)); return; }
        hsh = hsh * 1000003 + (uint32_t) (int64_t) (g * 64);
    }
    mc::check(1 + n * (h + 2 * pad) * (w + 2 * pad)); mc::outcome(mc::mix(hsh + (n ? 0 : mc::hash_bytes(bytes.data(), bytes.size()))));
    mc::armed = true;
    if (im) { for (uint32_t i = 0; i < n; i++) free(im[i]); free(im); }
    if (long l = mc::heap_disarm()) mc::fail("leaked " + std::to_string(l) + " blocks");
}
static void lab(const char *what, const std::string &bytes, uint32_t want_n, uint32_t req, bool either = false) {
    if (!mc::take()) return;
    auto d = [&] { return std::string(what) + ": label file of " + std::to_string(bytes.size()) + " bytes, requested " + std::to_string(req); }; MC_CASE(d);
    std::string p = path_of("m"); put_file(p, bytes);
    uint8_t *l = nullptr; int f0 = fds();
    mc::heap_arm(); uint32_t n = read_mnist_labels(p.c_str(), &l, req); mc::armed = false; mc::step();
    if (fds() != f0) { mc::fail("file left open"); return; }
    if (n != want_n && !(either && n == 0)) { mc::fail("returned " + std::to_string(n) + " labels instead of " + std::to_string(want_n)); return; }
    for (uint32_t i = 0; i < n; i++) if (l[i] != (uint8_t) bytes[8 + i]) { mc::fail("label " + std::to_string(i) + " is " + std::to_string(l[i])); return; }
    mc::check(1 + n); mc::outcome(mc::hash_bytes(bytes.data(), bytes.size(), n));
    mc::armed = true; free(l);
    if (long k = mc::heap_disarm()) mc::fail("leaked " + std::to_string(k) + " blocks");
}
void mc::explore() {
    const float R[][2] = {{0, 1}, {-1, 1}, {-0.5f, 0.5f}, {0, 255}, {2, 2}, {-3, -1}, {1, 1.5f}, {-1000, 5000}};
    uint32_t S = mc::thorough ? 5 : 3, salt = 1;
    for (uint32_t h = 1; h <= S; h++) for (uint32_t w = 1; w <= S; w++) for (uint32_t n = 0; n <= S; n++) for (uint32_t q = 0; q <= S + 1; q++) for (int p = 0; p < 4; p++) for (auto &r : R)
        img("intact", images(n, h, w, salt++), std::min(n, q), h, w, q, p, r[0], r[1]);
    for (auto &r : R) for (int p = 0; p < 2; p++) img("every pixel value", images(2, 16, 16, 0), 2, 16, 16, 2, p, r[0], r[1]);
    for (int p = 0; p < 256; p++) { img("padding", images(1, 2, 3, salt++), 1, 2, 3, 1, p, 0, 1); }
    for (uint32_t x = 1; x <= (mc::thorough ? 300u : 70u); x++) for (int p = 0; p < 2; p++) { img("size", images(2, x, 3, salt++), 2, x, 3, 5, p, -1, 1); img("size", images(2, 2, x, salt++), 2, 2, x, 2, p, -1, 1); img("count", images(x, 2, 1, salt++), x, 2, 1, x, p, -1, 1); img("count", images(x, 2, 1, salt++), x - 1, 2, 1, x - 1, p, -1, 1); }
    for (uint32_t x : {256u, 257u, 300u, 1000u, 4097u, 65536u, 70000u}) { img("size", images(1, 1, x, salt++), 1, 1, x, 1, 1, 0, 1); img("size", images(1, x, 1, salt++), 1, x, 1, 1, 1, 0, 1); img("count", images(x, 1, 1, salt++), x, 1, 1, x, 0, 0, 1); }
    img("mnist sized", images(60, 28, 28, salt++), 50, 28, 28, 50, 2, -1, 1);
    // labels
    for (uint32_t n = 0; n <= 40; n++) for (uint32_t q = 0; q <= 42; q++) lab("intact", labels(n, salt++), std::min(n, q), q);
    lab("every label", labels(256, 0), 256, 256); lab("many", labels(70000, 5), 65537, 65537); lab("many", labels(65536, 5), 65536, 65537);
    // damage: every prefix, every wrong byte of the magic number
    for (uint32_t h = 1; h <= 3; h++) for (uint32_t w = 1; w <= 3; w++) for (uint32_t n = 1; n <= 3; n++) for (uint32_t q = 1; q <= 4; q++) for (int p = 0; p < 2; p++) {
        std::string s = images(n, h, w, salt++);
        uint32_t need = std::min(n, q);
        for (size_t k = 0; k < s.size(); k++) img("cut", s.substr(0, k), k >= 16 + (size_t) need * h * w ? need : 0, h, w, q, p, 0, 1, true);
    }
    for (uint32_t n = 1; n <= 6; n++) for (uint32_t q = 1; q <= 7; q++) { std::string s = labels(n, salt++); uint32_t need = std::min(n, q); for (size_t k = 0; k < s.size(); k++) lab("cut", s.substr(0, k), k >= 8 + need ? need : 0, q, true); }
    for (int b = 0; b < 4; b++) for (int v = 0; v < 256; v++) {
        std::string s = images(2, 2, 2, 7); if ((unsigned char) s[b] != v) { s[b] = (char) v; img("wrong magic", s, 0, 2, 2, 2, 0, 0, 1); }
        s = labels(3, 7); if ((unsigned char) s[b] != v) { s[b] = (char) v; lab("wrong magic", s, 0, 3); }
    }
    img("label file as images", labels(30, 3), 0, 1, 1, 1, 0, 0, 1); lab("image file as labels", images(2, 2, 2, 3), 0, 1);
    for (int k = 0; k < 6; k++) {
        if (!mc::take()) continue;
        std::string p = k / 2 == 0 ? mc::scratch + "/missing" : k / 2 == 1 ? mc::scratch : "";
        auto d = [&] { return "unreadable path " + p; }; MC_CASE(d);
        float **im = nullptr; uint8_t *l = nullptr; mc::heap_arm(); uint32_t n = k % 2 ? read_mnist_images(p.c_str(), &im, 2, 0, 0, 1) : read_mnist_labels(p.c_str(), &l, 2); long q = mc::heap_disarm(); mc::step(); mc::check();
        if (n) mc::fail("unreadable file delivered " + std::to_string(n)); else if (q) mc::fail("leak");
        mc::outcome(k);
    }
}
#endif
