// E05: a fixed list of operations on the library, compiled once per build configuration into a shared object of its own.
#define MC_NO_MAIN
#include "zoo.h"
#include "wmodel.h"
#include <jpeglib.h>
void mc::explore() {}
struct Val { double v; int exact; };
typedef std::vector<Val> Out;
struct Item { std::string name; std::function<void(Out &)> f; };
static std::vector<Item> items;
static void put(Out &o, double v) { o.push_back({v, 1}); }
static void tensor(Out &o, Tensor *t, bool exact) { for (uint32_t i = 0; i < t->num_elements(); i++) { if (exact) o.push_back({(double) get_bits(t, i), 1}); else o.push_back({t->access_blob(i), 0}); } }
static void add(const std::string &n, std::function<void(Out &)> f) { items.push_back({n, f}); }
static std::string be(uint32_t v) { std::string s; for (int i = 3; i >= 0; i--) s += (char) (v >> (8 * i)); return s; }

static void layers(bool thorough) {
    auto Z = new std::vector<Spec>(big_zoo()); size_t k = 0; for (auto &s : large_zoo()) Z->push_back(s);
    for (auto &s : *Z) for (int second = 0; second < (s.in2.empty() ? 1 : 2); second++) for (uint32_t salt = 1; salt < (thorough ? 6u : 2u); salt++) {
        const Spec *p = &s;
        add("layer " + s.name + " #" + std::to_string(k++) + " on " + str(second ? s.in2 : s.in) + " data " + std::to_string(salt), [=](Out &o) {
            auto pr = make_params(*p, salt); TP in = make(second ? p->in2 : p->in), out = make(second ? p->out2 : p->out); fill(in.get(), salt + 40, 6); fill_const(out.get(), GARBAGE);
            Arr a(p->a), b(p->b), c(p->c); Obj ob = p->make(raw(pr), a.p, b.p, c.p);
            ob.run(in.get(), out.get()); tensor(o, out.get(), false); tensor(o, in.get(), true); ob.run(in.get(), out.get()); tensor(o, out.get(), false); ob.destroy();
        });
    }
}
static void tensors() {
    std::vector<Shape> S = {{1}, {7}, {1,1}, {3,4}, {5,1}, {1,2,3}, {2,1,4}, {1,1,2,2}, {2,3,1,4}, {1,2,3,3}};
    for (auto &s : S) {
        add("tensor " + str(s), [=](Out &o) {
            TP t = make(s), u = make(s); tensor(o, t.get(), true); put(o, t->num_dimensions()); put(o, t->num_elements()); put(o, t->size_bytes());
            fill(t.get(), 3); t->copy_data_into(u.get()); tensor(o, u.get(), true); put(o, *t == *u); u->access_blob(0) += 1; put(o, *t == *u);
            t->mul_with_factor(u.get(), 0.5f); tensor(o, u.get(), false); put(o, u->add_tensor(t.get())); tensor(o, u.get(), false);
            std::ostringstream os; os << *t; for (char c : os.str()) put(o, (unsigned char) c);
        });
        if (s.size() >= 3) add("channels of " + str(s), [=](Out &o) {
            TP t = make(s), u = make(s); fill(t.get(), 3); fill(u.get(), 4);
            for (uint32_t b = 0; b < s[0]; b++) for (uint32_t c = 0; c < s[1]; c++) { put(o, t->get_ptr_to_channel(b, c) - &t->access_blob(0)); put(o, t->add_channel(u.get(), b, c)); }
            tensor(o, t.get(), false); put(o, t->num_batches()); put(o, t->num_channels()); put(o, t->height()); put(o, t->width());
            uint32_t pad[4] = {1, 2, 0, 3}; Tensor *e = t->expand_with_padding(pad, 0.5f); tensor(o, e, true); for (uint32_t i = 0; i < e->num_dimensions(); i++) put(o, e->shape_[i]); delete e;
            Tensor *in[2] = {t.get(), u.get()}; Shape cs = s; cs[1] *= 2; TP cat = make(cs); if (s[0] == 1) { cat->concatenate_from(2, in, 1); tensor(o, cat.get(), true); }
        });
    }
}
static void weights() {
    std::vector<Rec> R = {{'C', {2,3,3,1}, 1, {2}, "Conv"}, {'C', {1,1,1,1}, 1, {0}, "Conv"}, {'C', {2,1,1,4}, 3, {2}, "Conv"}, {'C', {1,1,1,1}, 0, {1}, "Conv"}, {'G', {3,4}, 1, {4}, "Gemm"}, {'G', {1,5}, 1, {0}, "Gemm"}, {'G', {2,3}, 1, {0}, "MatMul"}, {'G', {2,2}, 1, {0}, "Transpose"}, {'B', {}, 0, {3,3,3,3}, "BatchNormalization"}, {'A', {}, 0, {4}, "Add"}};
    auto one = [](const std::vector<Rec> &r, const std::string &what, size_t cut, int flip) {
        add("weights file " + what, [=](Out &o) {
            std::vector<std::string> names; for (size_t i = 0; i < r.size(); i++) names.push_back(i % 2 ? std::string(130, 'n') : "layer");
            std::string s = write_weights(r, "net", names, 5).s; if (cut < s.size()) { if (flip) s[cut] ^= flip; else s.resize(cut); }
            std::string p = path_of("w"); put_file(p, s);
            Net n; net_for(r, n); n.done(); int rc = n.read(p.c_str()); put(o, rc != 0);
            if (rc == 0) { for (auto &t : n.k) tensor(o, t.get(), true); for (auto &t : n.b) tensor(o, t.get(), true); }
        });
    };
    for (auto &a : R) { one({a}, rstr(a), ~0u, 0); for (auto &b : R) one({a, b}, rstr(a) + " " + rstr(b), ~0u, 0); }
    std::vector<Rec> all = {R[0], R[4], R[8], R[9]}; size_t len = write_weights(all, "net", {"layer", std::string(130, 'n'), "layer", std::string(130, 'n')}, 5).s.size();
    for (size_t c = 0; c < len; c += c < 40 || c + 40 > len ? 1 : 3) one(all, "truncated to " + std::to_string(c), c, 0);
    for (size_t c = 0; c < 40; c++) one(all, "damaged at " + std::to_string(c), c, 1);
    add("missing weights file", [](Out &o) { Net n; n.add_b({1}); n.done(); put(o, n.read("/nonexistent/x") != 0); });
}
static void references() {
    for (int out = 0; out < 2; out++) for (Shape t : {Shape{1,4}, Shape{3,2}, Shape{1,2,3}, Shape{1,2,3,2}}) for (int cut = -1; cut < 60; cut++) {
        if (out && t.size() != 2) continue;
        add(std::string(out ? "output" : "input") + " reference file for " + str(t) + (cut < 0 ? "" : " cut to " + std::to_string(cut)), [=](Out &o) {
            std::string s = out ? "FCO\n" : "FCI\n"; auto w = [&](uint32_t v) { s.append((const char *) &v, 4); }; w(1);
            if (out) w(nelem(t)); else { w(t.size() == 2 ? 1 : t[1]); w(t.size() == 4 ? t[2] : t.size() == 3 ? 1 : t[0]); w(t.size() == 4 ? t[3] : t.size() == 3 ? t[2] : t[1]); }
            for (auto b : bits_vec(9, nelem(t))) w(b); s += "end\n"; if (cut >= 0 && (size_t) cut < s.size()) s.resize(cut);
            std::string p = path_of("r"); put_file(p, s); TP T = make(t); Tensor *tp = T.get();
            int rc = out ? read_binary_reference_output_data(p.c_str(), &tp) : read_binary_reference_input_data(p.c_str(), &tp); put(o, rc != 0); if (!rc) tensor(o, tp, true);
        });
    }
}
static void files() {
    for (uint32_t n : {0u, 1u, 3u}) for (uint32_t pad : {0u, 2u}) for (int cut : {-1, 3, 15, 17, 30}) {
        add("MNIST images " + std::to_string(n) + " padding " + std::to_string(pad) + " cut " + std::to_string(cut), [=](Out &o) {
            std::string s = be(2051) + be(3) + be(4) + be(5); for (int i = 0; i < 60; i++) s += (char) (i * 9 + 120); if (cut >= 0) s.resize(cut);
            std::string p = path_of("m"); put_file(p, s); float **im = nullptr; uint32_t r = read_mnist_images(p.c_str(), &im, n, pad, -1.f, 1.f); put(o, r);
            if (r) for (uint32_t i = 0; i < r; i++) for (uint32_t k = 0; k < (4 + 2 * pad) * (5 + 2 * pad); k++) o.push_back({im[i][k], 0});
        });
        if (!pad) add("MNIST labels " + std::to_string(n) + " cut " + std::to_string(cut), [=](Out &o) {
            std::string s = be(2049) + be(3); s += "\x01\xff\x80"; if (cut >= 0 && (size_t) cut < s.size()) s.resize(cut); std::string p = path_of("l"); put_file(p, s);
            uint8_t *l = nullptr; uint32_t r = read_mnist_labels(p.c_str(), &l, n); put(o, r); for (uint32_t i = 0; i < r; i++) put(o, l[i]);
        });
    }
    for (uint32_t v : {0u, 1u, 0x80u, 0x8000u, 0xff000001u, 0x12345678u, 0xffffffffu}) add("byte order of " + std::to_string(v), [=](Out &o) { put(o, change_endianess(v)); });
    for (int h : {1, 3}) for (int w : {1, 4}) for (int pad : {0, 1}) add("PGM " + std::to_string(h) + "x" + std::to_string(w) + " padding " + std::to_string(pad), [=](Out &o) {
        std::vector<float> v; for (int i = 0; i < h * w; i++) v.push_back(i * 0.0625f); std::string p = path_of("p"); put(o, write_pgm(v.data(), h, w, p.c_str()));
        std::string b = mc::read_file(p); for (char c : b) put(o, (unsigned char) c);
        float *im = nullptr; uint16_t H = 0, W = 0; int rc = read_pgm(&im, p.c_str(), pad, 0.f, 1.f, &H, &W); put(o, rc); if (!rc) { put(o, H); put(o, W); for (int i = 0; i < (h + 2 * pad) * (w + 2 * pad); i++) o.push_back({im[i], 0}); }
        for (size_t cut = 0; cut < b.size(); cut++) { put_file(p, b.substr(0, cut)); im = nullptr; put(o, read_pgm(&im, p.c_str(), pad, 0.f, 1.f, &H, &W) != 0); }
    });
    for (int n : {1, 6}) add("float file of " + std::to_string(n), [=](Out &o) {
        std::vector<float> v; for (int i = 0; i < n; i++) v.push_back(i * 0.125f - 0.3125f); std::string p = path_of("f"); put(o, write_float(v.data(), 1, n, p.c_str())); for (char c : mc::read_file(p)) put(o, (unsigned char) c);
    });
    for (const char *s : {"FD\n0x1.8p+6\n-0x1p+0\n1e2\n", "FD\n1\n2\n", "FD\n1\n2\n3", "FI\n1\n2\n3\n", "FD\nx\n", ""}) add(std::string("means ") + s, [=](Out &o) { std::string p = path_of("e"); put_file(p, s); float m[3] = {9, 9, 9}; int rc = read_means(p.c_str(), m); put(o, rc); if (!rc) for (float x : m) o.push_back({x, 0}); });
    for (uint32_t n : {1u, 3u}) for (const char *s : {"cat\ndog, hound\n\xc3\xa4pfel\n", "a\n", "a\nb", ""}) add("labels " + std::to_string(n) + " of " + s, [=](Out &o) {
        std::string p = path_of("L"); put_file(p, s); char **l = nullptr; int rc = read_imagenet_labels(p.c_str(), &l, n); put(o, rc); for (int i = 0; i < rc; i++) { for (const char *c = l[i]; *c; c++) put(o, (unsigned char) *c); put(o, -1); } });
    for (uint32_t n : {1u, 3u}) for (int lines : {0, 1, 3}) for (int cut : {0, 5}) add("validation labels " + std::to_string(n) + " of " + std::to_string(lines) + " lines" + (cut ? ", the last one short" : ""), [=](Out &o) {
        std::string s; for (int i = 0; i < lines; i++) s += "ILSVRC2012_val_0000000" + std::to_string(i + 1) + ".JPEG " + std::to_string(i * 331 + 7) + "\n"; if (cut && lines) s.resize(s.size() - cut);
        std::string p = path_of("V"); put_file(p, s); uint32_t *l = nullptr; int rc = read_imagenet_validation_labels(p.c_str(), &l, n); put(o, rc); for (int i = 1; i <= rc; i++) put(o, l[i]); });
    for (int comp : {1, 3}) for (int w : {1, 9, 16}) add("JPEG with " + std::to_string(comp) + " components, width " + std::to_string(w), [=](Out &o) {
        jpeg_compress_struct ci; jpeg_error_mgr je; ci.err = jpeg_std_error(&je); jpeg_create_compress(&ci); unsigned char *buf = nullptr; unsigned long len = 0; jpeg_mem_dest(&ci, &buf, &len);
        ci.image_width = w; ci.image_height = 5; ci.input_components = comp; ci.in_color_space = comp == 1 ? JCS_GRAYSCALE : JCS_RGB; jpeg_set_defaults(&ci); jpeg_set_quality(&ci, 95, TRUE); jpeg_start_compress(&ci, TRUE);
        std::vector<unsigned char> row(w * comp); unsigned char *rp = row.data(); for (int y = 0; y < 5; y++) { for (int x = 0; x < w * comp; x++) row[x] = x * 29 + y * 50; jpeg_write_scanlines(&ci, &rp, 1); }
        jpeg_finish_compress(&ci); std::string p = path_of("J"); put_file(p, std::string((char *) buf, len));
        float **im = nullptr; uint16_t H = 0, W = 0; int rc = read_jpeg(&im, p.c_str(), 0.f, 255.f, &H, &W); put(o, rc); put(o, H); put(o, W); if (!rc) for (int c = 0; c < 3; c++) for (int i = 0; i < 5 * w; i++) o.push_back({im[c][i], 0});
    });
}
static void refusals() {
    auto conv = [](std::vector<uint32_t> s, const char *w) { add(std::string("unsupported: ") + w, [=](Out &o) { TP k = make({1,1,3,3}); TP in = make(s), out = make(s); uint32_t st[2] = {1, 1}; naive::Convolution c("c", 0, op_type::Conv, k.get(), nullptr, nullptr, st, 1); c.run(in.get(), out.get()); tensor(o, out.get(), false); }); };
    conv({4}, "rank 1 convolution"); conv({2, 1, 3, 3}, "batch of convolutions");
    add("unsupported: sum of different shapes", [](Out &o) { TP a = make({1,2}), b = make({2,1}); put(o, a->add_tensor(b.get())); });
    add("unsupported: copy of another size", [](Out &o) { TP a = make({1,2}), b = make({1,3}); a->copy_data_into(b.get()); put(o, 1); });
}
extern "C" {
int vl_init(int thorough, uint64_t seed, const char *scratch) { mc::seed = seed; mc::scratch = scratch; layers(thorough); tensors(); weights(); references(); files(); refusals(); return items.size(); }
const char *vl_name(int k) { return items[k].name.c_str(); }
void vl_scratch(const char *s) { mc::scratch = s; }
size_t vl_run(int k, double *v, int *exact, size_t cap) {
    Out o; items[k].f(o); size_t n = std::min(cap, o.size());
    for (size_t i = 0; i < n; i++) { v[i] = o[i].v; exact[i] = o[i].exact; }
    return o.size();
}
}
