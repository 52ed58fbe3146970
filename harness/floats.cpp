// I06: float dumps, mean files, label files.
#include "files.h"
MC_RULE("a state is a distinct file or delivered array; a case is one written float dump parsed independently, or one mean/label file read; every value or line is compared exactly");
static void dump(const char *what, uint32_t h, uint32_t w, const std::vector<uint32_t> &bits) {
    if (!mc::take()) return;
    auto d = [&] { char b[64]; snprintf(b, sizeof b, "%08x", bits[0]); return std::string(what) + ": float dump of " + std::to_string(h) + "x" + std::to_string(w) + " values, first bits " + b; }; MC_CASE(d);
    std::vector<float> v(bits.size()); memcpy(v.data(), bits.data(), 4 * bits.size());
    std::string p = path_of("f"); unlink(p.c_str()); int f0 = fds();
    mc::heap_arm(); int rc = write_float(v.data(), h, w, p.c_str()); long l = mc::heap_disarm(); mc::step();
    if (rc) { mc::fail("write_float returned " + std::to_string(rc)); return; }
    if (l || fds() != f0) { mc::fail("leak"); return; }
    if (memcmp(v.data(), bits.data(), 4 * bits.size())) { mc::fail("write_float changed the image"); return; }
    std::string s = mc::read_file(p); mc::outcome(mc::hash_bytes(s.data(), s.size()));
    std::istringstream is(s); std::string line; std::vector<std::string> ls; while (std::getline(is, line)) ls.push_back(line);
    if (s.empty() || s.back() != '\n' || ls.size() != 3 + bits.size() || ls[0] != "FF" || ls[1] != std::to_string(h) || ls[2] != std::to_string(w)) { mc::fail("header or number of lines wrong (" + std::to_string(ls.size()) + " lines)"); return; }
    for (size_t i = 0; i < bits.size(); i++) {
        char *e; float g = strtof(ls[3 + i].c_str(), &e); uint32_t gb; memcpy(&gb, &g, 4);
        bool nan = (bits[i] & 0x7f800000) == 0x7f800000 && (bits[i] & 0x7fffff);
        if (*e || e == ls[3 + i].c_str() || (nan ? !std::isnan(g) : gb != bits[i])) { mc::fail("value " + std::to_string(i) + " written as \"" + ls[3 + i] + "\", should be " + fstr(v[i])); return; }
    }
    mc::check(bits.size());
}
// want: 0 success with values, 1 error, 2 either
static void means(const char *what, const std::string &s, int want, const float *v) {
    if (!mc::take()) return;
    auto d = [&] { return std::string(what) + ": mean file \"" + s + "\""; }; MC_CASE(d);
    std::string p = path_of("f"); put_file(p, s); float m[5] = {GARBAGE, GARBAGE, GARBAGE, GARBAGE, GARBAGE}; int f0 = fds();
    mc::heap_arm(); int rc = read_means(p.c_str(), m + 1); long l = mc::heap_disarm(); mc::step(); mc::check(3);
    if (want != 2 && (rc != 0) != want) { mc::fail("read_means returned " + std::to_string(rc)); return; }
    if (l || fds() != f0) { mc::fail("leak"); return; }
    if (m[0] != GARBAGE || m[4] != GARBAGE) { mc::fail("wrote outside the three means"); return; }
    if (want == 0) for (int i = 0; i < 3; i++) if (memcmp(&m[1 + i], &v[i], 4)) { mc::fail("mean " + std::to_string(i) + " is " + fstr(m[1 + i]) + ", expected " + fstr(v[i])); return; }
    mc::outcome(mc::hash_bytes(s.data(), s.size()));
}
static void lab(const char *what, const std::vector<std::string> &lines, bool nl, uint32_t req) {
    if (!mc::take()) return;
    auto d = [&] { std::string s = std::string(what) + ": label file of " + std::to_string(lines.size()) + " lines (lengths"; for (size_t i = 0; i < lines.size() && i < 8; i++) s += " " + std::to_string(lines[i].size()); return s + "), final newline " + (nl ? "present" : "absent") + ", requested " + std::to_string(req); }; MC_CASE(d);
    std::string s; for (size_t i = 0; i < lines.size(); i++) s += lines[i] + (i + 1 < lines.size() || nl ? "\n" : "");
    std::string p = path_of("f"); put_file(p, s); char **l = nullptr; int f0 = fds();
    mc::heap_arm(); int n = read_imagenet_labels(p.c_str(), &l, req); mc::armed = false; mc::step();
    int want = (int) std::min<size_t>(lines.size(), req);
    if (fds() != f0) { mc::fail("file left open"); return; }
    if (n != want) { mc::fail("returned " + std::to_string(n) + " labels, expected " + std::to_string(want)); return; }
    for (int i = 0; i < n; i++) if (lines[i] != l[i]) { mc::fail("label " + std::to_string(i) + " is \"" + std::string(l[i]).substr(0, 60) + "\" (" + std::to_string(strlen(l[i])) + " characters), the file's has " + std::to_string(lines[i].size())); return; }
    mc::check(n + 1); mc::outcome(mc::hash_bytes(s.data(), s.size(), req));
    mc::armed = true; if (l) { for (int i = 0; i < n; i++) free(l[i]); free(l); }
    if (long k = mc::heap_disarm()) mc::fail("leaked " + std::to_string(k) + " blocks");
}
static void val_lab(const char *what, const std::vector<uint32_t> &vals, bool nl, uint32_t req, int short_at = -1, int short_len = 0) {
    if (!mc::take()) return;
    auto d = [&] { std::string s = std::string(what) + ": validation label file, labels"; for (size_t i = 0; i < vals.size() && i < 8; i++) s += " " + std::to_string(vals[i]); return s + ", " + std::to_string(vals.size()) + " lines, final newline " + (nl ? "present" : "absent") + ", requested " + std::to_string(req) + (short_at >= 0 ? ", line " + std::to_string(short_at) + " cut to " + std::to_string(short_len) : ""); }; MC_CASE(d);
    std::string s; char b[80];
    for (size_t i = 0; i < vals.size(); i++) { snprintf(b, sizeof b, "ILSVRC2012_val_%08zu.JPEG %u", i + 1, vals[i]); std::string ln = b; if ((int) i == short_at) ln = ln.substr(0, short_len); s += ln + (i + 1 < vals.size() || nl ? "\n" : ""); }
    std::string p = path_of("f"); put_file(p, s); uint32_t *l = nullptr; int f0 = fds();
    mc::heap_arm(); int n = read_imagenet_validation_labels(p.c_str(), &l, req); mc::armed = false; mc::step();
    int want = short_at >= 0 && short_at < (int) req ? 0 : (int) std::min<size_t>(vals.size(), req);
    if (fds() != f0) { mc::fail("file left open"); return; }
    if (n != want) { mc::fail("returned " + std::to_string(n) + " labels, expected " + std::to_string(want)); return; }
    for (int i = 0; i < n; i++) if (l[i + 1] != vals[i]) { mc::fail("label of image " + std::to_string(i + 1) + " is " + std::to_string(l[i + 1]) + ", expected " + std::to_string(vals[i])); return; }
    mc::check(n + 1); mc::outcome(mc::hash_bytes(s.data(), s.size(), req));
    mc::armed = true; free(l);
    if (long k = mc::heap_disarm()) mc::fail("leaked " + std::to_string(k) + " blocks");
}
void mc::explore() {
    const uint32_t C[] = {0, 0x80000000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x3f800000, 0xbf800000, 0x3dcccccd, 0x42f6e979, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x3f800001};
    const int NC = 16;
    uint32_t salt = 1;
    for (auto &sh : std::vector<std::pair<int, int>>{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}}) { Odo o(std::vector<uint32_t>(sh.first * sh.second, NC)); do { std::vector<uint32_t> v; for (auto i : o.v) v.push_back(C[i]); dump("value classes", sh.first, sh.second, v); } while (o.next()); }
    for (uint32_t h = 1; h <= 9; h++) for (uint32_t w = 1; w <= 9; w++) dump("shape", h, w, bits_vec(salt++, h * w));
    for (uint32_t x = 1; x <= 100; x++) { dump("size", x, 2, bits_vec(salt++, 2 * x)); dump("size", 2, x, bits_vec(salt++, 2 * x)); }
    for (uint32_t x : {255u, 256u, 257u, 1000u, 32768u, 65535u}) { dump("size", x, 1, bits_vec(salt++, x)); dump("size", 1, x, bits_vec(salt++, x)); }
    // every sign/exponent/leading mantissa, with several low halves
    std::vector<uint32_t> lows{0, 1, 0x8000, 0xffff, 0x5555}; if (mc::thorough) for (int b = 0; b < 64; b++) lows.push_back(mc::mix(b) & 0xffff);
    for (auto lo : lows) for (uint32_t hi = 0; hi < 256; hi++) { std::vector<uint32_t> v; for (uint32_t m = 0; m < 256; m++) v.push_back(hi << 24 | m << 16 | lo); dump("all upper halves", 16, 16, v); }
    // means
    auto hex = [](float f) { char b[64]; snprintf(b, sizeof b, "%a", f); return std::string(b); };
    for (int i = 0; i < NC; i++) for (int j = 0; j < NC; j++) for (int k = 0; k < NC; k++) {
        float v[3]; memcpy(&v[0], &C[i], 4); memcpy(&v[1], &C[j], 4); memcpy(&v[2], &C[k], 4);
        if (std::isnan(v[0]) || std::isnan(v[1]) || std::isnan(v[2])) continue;
        std::string s = "FD\n" + hex(v[0]) + "\n" + hex(v[1]) + "\n" + hex(v[2]);
        means("intact", s + "\n", 0, v);
        if ((i + j + k) % 5 == 0) means("no final newline", s, 0, v);
    }
    for (uint32_t i = 0; i < (mc::thorough ? 20000u : 2000u); i++) { uint32_t b[3]; float v[3]; bool ok = true; for (int k = 0; k < 3; k++) { b[k] = (uint32_t) mc::mix(i * 3 + k); memcpy(&v[k], &b[k], 4); ok = ok && !std::isnan(v[k]); } if (ok) means("spread values", "FD\n" + hex(v[0]) + "\n" + hex(v[1]) + "\n" + hex(v[2]) + "\n", 0, v); }
    for (int i = 0; i < NC; i++) {
        float v[3]; for (int k = 0; k < 3; k++) { memcpy(&v[k], &C[(i + k) % 14], 4); if (std::isnan(v[k])) v[k] = 7; }
        std::string a = "FD\n" + hex(v[0]) + "\n" + hex(v[1]) + "\n", s = a + hex(v[2]) + "\n";
        for (size_t k = 0; k < s.size(); k++) means("cut", s.substr(0, k), k <= a.size() ? 1 : 2, v);
    }
    for (int pos = 0; pos < 2; pos++) for (int b = 0; b < 256; b++) { std::string s = "FD\n0x1p+0\n0x1p+1\n0x1p+2\n"; if ((unsigned char) s[pos] != b) { s[pos] = (char) b; means("wrong magic", s, 1, nullptr); } }
    for (const char *s : {"", "\n", "0x1p+0\n0x1p+0\n0x1p+0\n", "FF\n0x1p+0\n0x1p+0\n0x1p+0\n", "FD\nx\n0x1p+0\n0x1p+0\n", "FD\n0x1p+0\nx\n0x1p+0\n", "FD\n0x1p+0\n0x1p+0\nx\n", "FD0x1p+0\n0x1p+0\n0x1p+0\n"}) means("malformed", s, 1, nullptr);
    // labels: all line counts against all requests, all length combinations of a small alphabet
    const std::string T[] = {"a", "n01440764 tench, Tinca tinca", "", std::string(98, 'x'), std::string(99, 'y'), std::string(100, 'z'), "\xc3\xa4\"quoted\" \t end "};
    for (int n = 0; n <= 4; n++) { Odo o(std::vector<uint32_t>(std::max(n, 1), n ? 7 : 1)); do { std::vector<std::string> ls; for (int i = 0; i < n; i++) ls.push_back(T[o.v[i]]); for (int nl = 0; nl < 2; nl++) { if (!nl && n && ls.back().empty()) continue; for (int q = 0; q <= n + 2; q++) if (n < 4 || mc::thorough || q >= n - 1) lab("lines", ls, nl, q); } } while (o.next()); }
    for (uint32_t x = 1; x <= (mc::thorough ? 1200u : 400u); x++) for (int nl = 0; nl < 2; nl++) { lab("length", {std::string(x, 'q'), "b"}, nl, 2); lab("length", {"b", std::string(x, 'q')}, nl, 2); }
    for (uint32_t x : {1023u, 1024u, 1025u, 4095u, 4096u, 4097u, 70000u}) for (int nl = 0; nl < 2; nl++) lab("length", {"b", std::string(x, 'q'), "c"}, nl, 3);
    for (int c = 1; c < 256; c++) if (c != '\n') for (int nl = 0; nl < 2; nl++) lab("character", {std::string(1, (char) c) + "a" + (char) c, "b"}, nl, 2);
    for (uint32_t n : {10u, 100u, 999u, 1000u, 1001u, 3000u, 66000u}) { std::vector<std::string> ls; for (uint32_t i = 0; i < n; i++) ls.push_back("label " + std::to_string(i * 7919)); for (uint32_t q : {n - 1, n, n + 1, 1000u}) lab("many", ls, true, q); }
    // validation labels
    const uint32_t V[] = {0, 1, 9, 10, 99, 100, 999, 1000, 65536, 2147483647};
    for (int n = 0; n <= 3; n++) { Odo o(std::vector<uint32_t>(std::max(n, 1), n ? 10 : 1)); do { std::vector<uint32_t> v; for (int i = 0; i < n; i++) v.push_back(V[o.v[i]]); for (int nl = 0; nl < 2; nl++) for (int q = 0; q <= n + 2; q++) val_lab("lines", v, nl, q); } while (o.next()); }
    for (uint32_t x = 0; x < 1500; x++) val_lab("value", {x, 1500 - x}, x & 1, 2);
    for (uint32_t n : {10u, 500u, 1000u, 50000u, 66000u}) { std::vector<uint32_t> v; for (uint32_t i = 0; i < n; i++) v.push_back((i * 7919u) % 1000); for (uint32_t q : {n - 1, n, n + 1}) val_lab("many", v, true, q); }
    for (int n = 1; n <= 3; n++) for (int at = 0; at < n; at++) for (int len = 0; len <= 28; len++) for (int nl = 0; nl < 2; nl++) for (int q = 1; q <= 4; q++) { if (!nl && at == n - 1 && len == 0) continue; val_lab("short line", std::vector<uint32_t>(n, 7), nl, q, at, len); }
    for (int k = 0; k < 9; k++) {
        if (!mc::take()) continue;
        std::string p = k / 3 == 0 ? mc::scratch + "/missing" : k / 3 == 1 ? mc::scratch + "/no/dir/f" : "";
        auto d = [&] { return "unreadable path " + p; }; MC_CASE(d);
        char **l = nullptr; uint32_t *u = nullptr; float m[3]; mc::heap_arm();
        int rc = k % 3 == 0 ? read_imagenet_labels(p.c_str(), &l, 3) : k % 3 == 1 ? read_imagenet_validation_labels(p.c_str(), &u, 3) : !read_means(p.c_str(), m);
        long q = mc::heap_disarm(); mc::step(); mc::check();
        if (rc) mc::fail("unreadable file accepted by reader " + std::to_string(k % 3)); else if (q) mc::fail("leak");
        mc::outcome(k);
    }
}
