// Building, storing and mutating small files for the I/O harnesses.
#pragma once
#include "pc.h"
#include <fstream>
#include "pico-cnn/io/read_mnist.h"
#include "pico-cnn/io/read_pgm.h"
#include "pico-cnn/io/write_pgm.h"
#include "pico-cnn/io/write_float.h"
#include "pico-cnn/io/read_means.h"
#include "pico-cnn/io/read_imagenet_labels.h"
#include "pico-cnn/io/read_imagenet_validation_labels.h"
#include "pico-cnn/io/read_jpeg.h"

struct Seg { size_t off, len; char kind; };     // kind: 'm' magic, 'n' name (with newline), 't' type (with newline), 'c' count, 'v' values, 'e' end marker
struct FileBuf {
    std::string s; std::vector<Seg> seg;
    void raw(const std::string &b, char kind) { seg.push_back({s.size(), b.size(), kind}); s += b; }
    void u32(uint32_t v, char kind = 'c') { raw(std::string((const char *) &v, 4), kind); }
    void values(const std::vector<uint32_t> &bits) { raw(std::string((const char *) bits.data(), bits.size() * 4), 'v'); }
};

// Float bit patterns: ordinary numbers mixed with every class (NaN payloads, infinities, denormals, zeros).
inline uint32_t bits_of(uint32_t salt, uint32_t i) {
    uint64_t h = mc::mix(((uint64_t) salt << 32) ^ (i * 2654435761u) ^ (mc::seed * 0x9e3779b9ull));
    if (h % 11 == 0) { static const uint32_t sp[] = {0x7f800000, 0xff800000, 0x7fc00001, 0x7fa00000, 0xffc12345, 0x00000001, 0x80000000, 0x007fffff, 0x00000000, 0x7f7fffff, 0x0a0a0a0a, 0x646e650a}; return sp[(h >> 8) % 12]; }
    return (uint32_t) (h >> 16);
}
inline std::vector<uint32_t> bits_vec(uint32_t salt, uint32_t n) { std::vector<uint32_t> v(n); for (uint32_t i = 0; i < n; i++) v[i] = bits_of(salt, i); return v; }

inline void put_file(const std::string &path, const std::string &bytes) {
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    size_t o = 0; while (o < bytes.size()) { ssize_t n = write(fd, bytes.data() + o, bytes.size() - o); if (n <= 0) break; o += n; }
    close(fd);
}
inline std::string path_of(const char *name) { return mc::scratch + "/" + name; }

inline void set_bits(Tensor *t, uint32_t i, uint32_t b) { float f; memcpy(&f, &b, 4); memcpy(&t->access_blob(i), &b, 4); (void) f; }
inline uint32_t get_bits(Tensor *t, uint32_t i) { uint32_t b; memcpy(&b, &t->access_blob(i), 4); return b; }
static const uint32_t UNTOUCHED = 0x47f12060;    // marker stored in every tensor before a read
inline void mark(Tensor *t) { for (uint32_t i = 0; i < t->num_elements(); i++) set_bits(t, i, UNTOUCHED); }
inline int fds() { int n = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
