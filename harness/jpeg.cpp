// I07: JPEG reader against libjpeg used directly.
#include "files.h"
#include <jpeglib.h>
MC_RULE("a state is a distinct set of three planes; a case is one JPEG encoding (size, colour mode, sub-sampling, baseline/progressive, quality, picture) read with one range; every sample of the three planes is compared with an independent full decode of the same bytes");
struct Cfg { uint32_t h, w; int mode; int pic; int q; bool prog; };      // mode 0 grey, 1 4:4:4, 2 4:2:2, 3 4:2:0, 4 RGB stored directly
static std::string encode(const Cfg &c, uint32_t salt) {
    jpeg_compress_struct ci; jpeg_error_mgr je; ci.err = jpeg_std_error(&je); jpeg_create_compress(&ci);
    unsigned char *buf = nullptr; unsigned long len = 0; jpeg_mem_dest(&ci, &buf, &len);
    int comp = c.mode == 0 ? 1 : 3; ci.image_width = c.w; ci.image_height = c.h; ci.input_components = comp; ci.in_color_space = comp == 1 ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_set_defaults(&ci); jpeg_set_quality(&ci, c.q, TRUE);
    if (c.mode == 4) jpeg_set_colorspace(&ci, JCS_RGB);
    if (comp == 3 && c.mode != 4) { ci.comp_info[0].h_samp_factor = c.mode >= 2 ? 2 : 1; ci.comp_info[0].v_samp_factor = c.mode == 3 ? 2 : 1; }
    if (c.prog) jpeg_simple_progression(&ci);
    jpeg_start_compress(&ci, TRUE);
    std::vector<unsigned char> row(c.w * comp); unsigned char *rp = row.data();
    for (uint32_t y = 0; y < c.h; y++) {
        for (uint32_t x = 0; x < c.w; x++) for (int k = 0; k < comp; k++) {
            int v = 0;
            switch (c.pic) { case 0: v = mc::mix(salt * 1000003ull + (y * c.w + x) * comp + k); break; case 1: v = k == (int) (salt % 3) ? 255 : 0; break; case 2: v = k == 0 ? x * 255 / std::max(1u, c.w - 1) : k == 1 ? y * 255 / std::max(1u, c.h - 1) : 255 - (x + y); break; case 3: v = ((x + y + k) & 1) * 255; break; default: v = 90 + 60 * k; }
            row[x * comp + k] = (unsigned char) v;
        }
        jpeg_write_scanlines(&ci, &rp, 1);
    }
    jpeg_finish_compress(&ci); jpeg_destroy_compress(&ci);
    std::string s((char *) buf, len); free(buf); return s;
}
static std::vector<unsigned char> decode(const std::string &s, uint32_t &h, uint32_t &w, int &comp) {
    jpeg_decompress_struct ci; jpeg_error_mgr je; ci.err = jpeg_std_error(&je); jpeg_create_decompress(&ci);
    jpeg_mem_src(&ci, (const unsigned char *) s.data(), s.size()); jpeg_read_header(&ci, TRUE); jpeg_start_decompress(&ci);
    h = ci.output_height; w = ci.output_width; comp = ci.output_components;
    std::vector<unsigned char> o((size_t) h * w * comp);
    while (ci.output_scanline < h) { unsigned char *p = &o[(size_t) ci.output_scanline * w * comp]; jpeg_read_scanlines(&ci, &p, 1); }
    jpeg_finish_decompress(&ci); jpeg_destroy_decompress(&ci); return o;
}
static void one(const Cfg &c, uint32_t salt, float lo, float hi) {
    if (!mc::take()) return;
    auto d = [&] { const char *m[] = {"grey", "4:4:4", "4:2:2", "4:2:0", "RGB"}; return std::string("JPEG ") + std::to_string(c.h) + "x" + std::to_string(c.w) + " " + m[c.mode] + (c.prog ? " progressive" : " baseline") + " quality " + std::to_string(c.q) + " picture " + std::to_string(c.pic) + " range " + fstr(lo) + ".." + fstr(hi); }; MC_CASE(d);
    std::string s = encode(c, salt); std::string p = path_of("j"); put_file(p, s);
    uint32_t h, w; int comp; auto px = decode(s, h, w, comp);
    float **im = nullptr; uint16_t H = 0, W = 0; int f0 = fds();
    mc::heap_arm(); int rc = read_jpeg(&im, p.c_str(), lo, hi, &H, &W); mc::armed = false; mc::step();
    if (rc) { mc::fail("read_jpeg returned " + std::to_string(rc)); return; }
    if (H != h || W != w || h != c.h || w != c.w) { mc::fail("dimensions " + std::to_string(H) + "x" + std::to_string(W)); return; }
    if (fds() != f0) { mc::fail("file left open"); return; }
    uint64_t hs = 1;
    for (int pl = 0; pl < 3; pl++) for (size_t i = 0; i < (size_t) h * w; i++) {
        int v = comp == 1 ? px[i] : px[i * comp + (2 - pl)];
        double e = lo + v / 255.0 * ((double) hi - lo); float g = im[pl][i];
        if (!(std::fabs(g - e) <= 1e-6 + 1e-6 * (std::fabs(lo) + std::fabs(hi)))) { mc::fail("plane " + std::to_string(pl) + " sample " + std::to_string(i) + " is " + fstr(g) + ", expected " + fstr(e)); return; }
        hs = hs * 1000003 + v + 1;
    }
    if (c.pic == 1 && c.mode && c.q >= 75) {       // a saturated red/green/blue picture dominates its own plane
        int pl = 2 - salt % 3; float other = std::max(im[(pl + 1) % 3][0], im[(pl + 2) % 3][0]);
        if (hi > lo && !(im[pl][0] > other)) { mc::fail("pure colour picture is not dominant in its plane"); return; }
    }
    mc::check(3 * h * w); mc::outcome(mc::mix(hs));
    mc::armed = true; for (int i = 0; i < 3; i++) free(im[i]); free(im);
    if (long l = mc::heap_disarm()) mc::fail("leaked " + std::to_string(l) + " blocks");
}
void mc::explore() {
    const float R[][2] = {{0, 1}, {-1, 1}, {0, 255}, {-0.5f, 0.5f}, {2, 2}, {-3, -1}};
    uint32_t salt = 1, S = mc::thorough ? 20 : 9;
    for (uint32_t h = 1; h <= S; h++) for (uint32_t w = 1; w <= S; w++) for (int m = 0; m < 5; m++) for (int pic = 0; pic < 5; pic++) for (int pr = 0; pr < 2; pr++) { one({h, w, m, pic, pic == 1 ? 100 : 75, pr != 0}, salt, R[salt % 6][0], R[salt % 6][1]); salt++; }
    for (int m = 0; m < 5; m++) for (int q : {1, 10, 30, 50, 75, 90, 95, 100}) for (auto &r : R) for (int pr = 0; pr < 2; pr++) one({17, 13, m, 0, q, pr != 0}, salt++, r[0], r[1]);
    for (uint32_t x = 1; x <= (mc::thorough ? 260u : 70u); x++) for (int m = 0; m < 5; m++) { one({x, 3, m, 0, 75, (x & 1) != 0}, salt++, 0, 1); one({3, x, m, 0, 75, (x & 1) != 0}, salt++, 0, 1); }
    for (uint32_t x : {255u, 256u, 257u, 1000u, 8192u, 21845u, 21846u, 32768u, 40000u, 65000u, 65500u}) for (int m = 0; m < 5; m += 3) { one({1, x, m, 0, 75, false}, salt++, 0, 1); one({x, 1, m, 0, 75, false}, salt++, 0, 1); }
    one({300, 280, 3, 2, 75, false}, salt++, 0, 1); one({280, 300, 0, 2, 75, true}, salt++, 0, 255); one({270, 300, 1, 0, 90, true}, salt++, -1, 1);
    for (int k = 0; k < 3; k++) {
        if (!mc::take()) continue;
        std::string p = k == 0 ? mc::scratch + "/missing" : k == 1 ? mc::scratch + "/no/dir/f.jpg" : "";
        auto d = [&] { return "unreadable path " + p; }; MC_CASE(d);
        float **im = nullptr; uint16_t H, W; mc::heap_arm(); int rc = read_jpeg(&im, p.c_str(), 0, 1, &H, &W); long q = mc::heap_disarm(); mc::step(); mc::check();
        if (!rc) mc::fail("missing file accepted"); else if (q) mc::fail("leak"); mc::outcome(k);
    }
}
