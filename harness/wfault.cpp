// I08: the medium refuses data at any point while an image is written.
#include "files.h"
MC_RULE("an evaluation is one write of one image under one injected fault (file size limit at one byte offset, a stream whose write fails at one byte offset, fails on close, or accepts only short writes, a full device, an uncreatable path); distinct_nontrivial counts distinct (file content left behind, return code) pairs; success must coincide with the complete file");
// ---- fopen wrapper: when armed, hands the library a stream whose writes fail at a chosen offset -----------------
extern "C" FILE *__real_fopen(const char *, const char *);
static bool cookie_on = false, cookie_used = false; static long fail_off = -1; static size_t chunk = 0; static bool fail_close = false; static std::string cookie_data; static int cookie_open = 0; static bool refused = false;
static ssize_t cw(void *, const char *b, size_t n) {
    if (chunk && n > chunk) n = chunk;
    if (fail_off >= 0) { if ((long) cookie_data.size() >= fail_off) { errno = ENOSPC; refused = true; return 0; } if ((long) (cookie_data.size() + n) > fail_off) n = fail_off - cookie_data.size(); }
    bool a = mc::armed; mc::armed = false; cookie_data.append(b, n); mc::armed = a; return n;
}
static int cc(void *) { cookie_open--; if (fail_close) { errno = EIO; refused = true; return -1; } return 0; }
static FILE *wrapped(const char *p, const char *m) {
    if (!cookie_on) return __real_fopen(p, m);
    cookie_used = true; cookie_open++; cookie_io_functions_t io = {nullptr, cw, nullptr, cc}; return fopencookie((void *) &cookie_on, "w", io);
}
extern "C" FILE *__wrap_fopen(const char *p, const char *m) { return wrapped(p, m); }
extern "C" FILE *__wrap_fopen64(const char *p, const char *m) { return wrapped(p, m); }

static int do_write(bool pgm, const std::vector<float> &v, uint32_t h, uint32_t w, const char *p) { return pgm ? write_pgm(v.data(), h, w, p) : write_float(v.data(), h, w, p); }
static std::vector<float> image(uint32_t n) { std::vector<float> v(n); for (uint32_t i = 0; i < n; i++) { uint32_t b = (uint32_t) mc::mix(i + 17); v[i] = (float) (int) (b % 20001) / 7.0f - 1000; } return v; }
// a complete file of this image, from an undisturbed write
static std::string whole(bool pgm, const std::vector<float> &v, uint32_t h, uint32_t w) {
    static std::map<std::string, std::string> memo; std::string k = std::to_string(pgm) + "/" + std::to_string(h) + "x" + std::to_string(w);
    auto it = memo.find(k); if (it != memo.end()) return it->second;
    std::string p = path_of("whole"); unlink(p.c_str()); do_write(pgm, v, h, w, p.c_str()); return memo[k] = mc::read_file(p);
}
static void verdict(int rc, long leak, int f0, const std::string &got, const std::string &want, bool fault) {
    mc::step(); mc::check();
    mc::outcome(mc::hash_bytes(got.data(), got.size(), 7 + (rc != 0)));
    bool complete = got == want;
    if (rc == 0 && !complete) { mc::fail("reported success with " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " bytes stored"); return; }
    if (rc == 0 && fault) { mc::fail("reported success although the medium reported an error"); return; }
    if (rc != 0 && complete && !fault) { mc::fail("reported failure although the file is complete"); return; }
    if (leak) { mc::fail("leaked " + std::to_string(leak) + " blocks"); return; }
    if (fds() != f0 || cookie_open) mc::fail("file left open");
}
void mc::explore() {
    signal(SIGXFSZ, SIG_IGN);
    std::vector<std::pair<uint32_t, uint32_t>> S{{1, 1}, {1, 2}, {2, 3}, {5, 5}, {64, 64}, {65, 64}, {20, 25}}; if (mc::thorough) { S.push_back({100, 130}); S.push_back({1, 4097}); S.push_back({200, 1}); }
    for (auto &sh : S) for (int pgm = 0; pgm < 2; pgm++) {
        uint32_t h = sh.first, w = sh.second; auto v = image(h * w);
        std::string want = whole(pgm, v, h, w); size_t len = want.size();
        if (mc::scratch.empty() || len < h * w) { if (mc::take()) { auto d = [&] { return std::string("undisturbed write"); }; MC_CASE(d); mc::fail("undisturbed write produced " + std::to_string(len) + " bytes"); } continue; }
        size_t stepw = len > 20000 && !mc::thorough ? 7 : 1;
        for (size_t off = 0; off <= len + 1; off += (off + 40 > len || off < 200 ? 1 : stepw)) {
            auto d = [&] { return std::string(pgm ? "PGM " : "float dump ") + std::to_string(h) + "x" + std::to_string(w) + " (" + std::to_string(len) + " bytes), medium full at byte " + std::to_string(off); };
            if (mc::take()) {            // real file under a size limit
                MC_CASE(d);
                std::string p = path_of("o"); unlink(p.c_str()); int f0 = fds();
                struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = off; setrlimit(RLIMIT_FSIZE, &lim);
                mc::heap_arm(); int rc = do_write(pgm, v, h, w, p.c_str()); long l = mc::heap_disarm(); setrlimit(RLIMIT_FSIZE, &old);
                verdict(rc, l, f0, mc::read_file(p), want, off < len);
            }
            for (size_t ch : {(size_t) 0, (size_t) 1, (size_t) 13}) if (mc::take()) {      // failing stream, with short writes
                auto dd = [&] { return d() + ", stream accepting " + (ch ? std::to_string(ch) + " bytes at a time" : std::string("any amount")); };
                MC_CASE(dd);
                cookie_on = true; cookie_used = false; fail_off = off; chunk = ch; fail_close = false; cookie_data.clear(); cookie_open = 0; refused = false; int f0 = fds();
                std::string p = path_of("o2"); unlink(p.c_str());
                mc::heap_arm(); int rc = do_write(pgm, v, h, w, p.c_str()); long l = mc::heap_disarm(); cookie_on = false;
                if (cookie_used) verdict(rc, l, f0, cookie_data, want, refused);
            }
        }
        for (size_t ch : {(size_t) 0, (size_t) 1, (size_t) 13}) if (mc::take()) {
            auto d = [&] { return std::string(pgm ? "PGM " : "float dump ") + std::to_string(h) + "x" + std::to_string(w) + ", closing the file fails, chunk " + std::to_string(ch); }; MC_CASE(d);
            cookie_on = true; cookie_used = false; fail_off = -1; chunk = ch; fail_close = true; cookie_data.clear(); cookie_open = 0; refused = false; int f0 = fds();
            std::string p = path_of("o2"); unlink(p.c_str());
            mc::heap_arm(); int rc = do_write(pgm, v, h, w, p.c_str()); long l = mc::heap_disarm(); cookie_on = false; fail_close = false;
            if (cookie_used) verdict(rc, l, f0, cookie_data, want, refused);
        }
        // a file is there already: other images' files, other contents, shorter, longer, reached through a link
        std::vector<std::string> olds{"", "x", want, want + "x", want.substr(0, len - 1), std::string(len, '\0'), std::string(len * 3 + 5000, 'y'), whole(!pgm, v, h, w), std::string(1 << 17, '7')};
        for (size_t k = 0; k < olds.size(); k++) for (int link = 0; link < 3; link++) for (long off : {-1L, (long) len - 1, (long) len / 2}) if (mc::take()) {
            auto d = [&] { return std::string(pgm ? "PGM " : "float dump ") + std::to_string(h) + "x" + std::to_string(w) + " over an existing file of " + std::to_string(olds[k].size()) + " bytes" + (link == 1 ? " behind a symbolic link" : link == 2 ? " with another name" : "") + (off >= 0 ? ", medium full at byte " + std::to_string(off) : ""); }; MC_CASE(d);
            std::string p = path_of("e"), t = path_of("target"); unlink(p.c_str()); unlink(t.c_str());
            { std::ofstream o(link ? t : p, std::ios::binary); o << olds[k]; }
            if (link == 1 ? symlink(t.c_str(), p.c_str()) : link == 2 ? ::link(t.c_str(), p.c_str()) : 0) { mc::fail("cannot make the link"); return; }
            int f0 = fds(); struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old);
            if (off >= 0) { lim = old; lim.rlim_cur = off; setrlimit(RLIMIT_FSIZE, &lim); }
            mc::heap_arm(); int rc = do_write(pgm, v, h, w, p.c_str()); long l = mc::heap_disarm(); setrlimit(RLIMIT_FSIZE, &old);
            verdict(rc, l, f0, mc::read_file(p), want, off >= 0 && off < (long) len);
            if (off < 0 && rc == 0) { int rc2 = do_write(pgm, v, h, w, p.c_str()); verdict(rc2, 0, f0, mc::read_file(p), want, false); }
            unlink(p.c_str()); unlink(t.c_str());
        }
        for (int k = 0; k < 4; k++) if (mc::take()) {
            std::string p = k == 0 ? "/dev/full" : k == 1 ? mc::scratch : k == 2 ? mc::scratch + "/no/dir/f" : "";
            auto d = [&] { return std::string(pgm ? "PGM " : "float dump ") + std::to_string(h) + "x" + std::to_string(w) + " to " + p; }; MC_CASE(d);
            int f0 = fds(); mc::heap_arm(); int rc = do_write(pgm, v, h, w, p.c_str()); long l = mc::heap_disarm();
            verdict(rc, l, f0, "", want, true);
        }
    }
}
