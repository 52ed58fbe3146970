/* Fault injector for the tools' file accesses (LD_PRELOAD). Dormant until armed; then numbers every operation that can change
   files (opening for writing, writing, closing, creating folders, renaming, removing) and, separately, every operation reading
   a file below the case's folder, and makes operation number `at` fail in the given way. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
enum { NONE, FAIL, FULL, PARTIAL, KILL, TORN };          /* FAIL once; FULL: from here on; PARTIAL: half of a write, then FULL; KILL; TORN: half of a write, then KILL */
static int armed, kind, count, at, fired, err; static int reading;
static char root[512]; static unsigned char wfd[4096], rfd[4096];
static char trace[1 << 16]; static size_t ntrace;
void verif_arm(const char* r, int rd, int k, int n, int e) { strncpy(root, r, sizeof root - 1); reading = rd; kind = k; at = n; err = e; count = fired = 0; ntrace = 0; trace[0] = 0; memset(wfd, 0, sizeof wfd); memset(rfd, 0, sizeof rfd); armed = 1; }
void verif_disarm(void) { armed = 0; }
int verif_count(void) { return count; }
int verif_fired(void) { return fired; }
const char* verif_trace(void) { return trace; }
#define REAL(n) static __typeof__(&n) real; if (!real) real = (__typeof__(real)) dlsym(RTLD_NEXT, #n)
/* 0: go on, 1: fail with errno, 2: do half, then fail */
static int step(const char* what, int rd) {
  if (!armed || rd != reading) return 0;
  int k = count++;
  if (ntrace + 40 < sizeof trace) { strcpy(trace + ntrace, what); ntrace += strlen(what); trace[ntrace++] = ' '; trace[ntrace] = 0; }
  if (fired && (kind == FULL || kind == PARTIAL) && strcmp(what, "close")) { errno = err; return 1; }
  if (k != at || kind == NONE) return 0;
  fired = 1;
  if (kind == KILL) _exit(99);
  if (kind == PARTIAL || kind == TORN) { if (!strcmp(what, "write")) return 2; if (kind == TORN) _exit(99); }
  errno = err; return 1;
}
static int inside(const char* p) { return p && (p[0] != '/' || !strncmp(p, root, strlen(root))); }
static int special(const char* p) { return p && (!strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6)); }
static int pre_open(const char* p, int fl) {
  if (!armed || special(p) || (fl & O_DIRECTORY)) return 0;
  if ((fl & O_ACCMODE) == O_RDONLY) return inside(p) && reading ? step("open", 1) : 0;
  return step("open", 0);
}
static int post_open(const char* p, int fl, int fd) {
  if (armed && fd >= 0 && fd < 4096 && !special(p) && !(fl & O_DIRECTORY)) { wfd[fd] = (fl & O_ACCMODE) != O_RDONLY; rfd[fd] = !wfd[fd] && inside(p); }
  return fd;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); }
int open(const char* p, int fl, ...) { REAL(open); MODE if (pre_open(p, fl)) return -1; return post_open(p, fl, real(p, fl, m)); }
int open64(const char* p, int fl, ...) { REAL(open64); MODE if (pre_open(p, fl)) return -1; return post_open(p, fl, real(p, fl, m)); }
int openat(int d, const char* p, int fl, ...) { REAL(openat); MODE if (pre_open(p, fl)) return -1; return post_open(p, fl, real(d, p, fl, m)); }
int openat64(int d, const char* p, int fl, ...) { REAL(openat64); MODE if (pre_open(p, fl)) return -1; return post_open(p, fl, real(d, p, fl, m)); }
static int W(int fd) { return fd >= 0 && fd < 4096 && wfd[fd]; }
static int R(int fd) { return fd >= 0 && fd < 4096 && rfd[fd]; }
ssize_t write(int fd, const void* b, size_t n) {
  REAL(write);
  if (W(fd)) { int s = step("write", 0); if (s == 1) return -1; if (s == 2) { ssize_t r = real(fd, b, n / 2); if (kind == TORN) _exit(99); if (r > 0) return r; errno = err; return -1; } }
  return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { REAL(pwrite64); if (W(fd) && step("pwrite", 0)) return -1; return real(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int n) { REAL(writev); if (W(fd) && step("writev", 0)) return -1; return real(fd, v, n); }
ssize_t sendfile(int o, int i, off_t* off, size_t n) { REAL(sendfile); if (W(o) && step("sendfile", 0)) return -1; return real(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t* off, size_t n) { REAL(sendfile64); if (W(o) && step("sendfile", 0)) return -1; return real(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t* io, int o, off64_t* oo, size_t n, unsigned f) { REAL(copy_file_range); if (W(o) && step("copy", 0)) return -1; return real(i, io, o, oo, n, f); }
ssize_t read(int fd, void* b, size_t n) { REAL(read); if (armed && reading && R(fd) && step("read", 1)) return -1; return real(fd, b, n); }
int close(int fd) {
  REAL(close);
  if (W(fd)) { int s = step("close", 0); wfd[fd] = 0; if (s) { int e = errno; real(fd); errno = e; return -1; } }
  if (R(fd)) rfd[fd] = 0;
  return real(fd);
}
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (W(fd) && step("truncate", 0)) return -1; return real(fd, n); }
int fsync(int fd) { REAL(fsync); if (W(fd) && step("sync", 0)) return -1; return real(fd); }
int mkdir(const char* p, mode_t m) { REAL(mkdir); if (step("mkdir", 0)) return -1; return real(p, m); }
int mkdirat(int d, const char* p, mode_t m) { REAL(mkdirat); if (step("mkdir", 0)) return -1; return real(d, p, m); }
int rename(const char* a, const char* b) { REAL(rename); if (step("rename", 0)) return -1; return real(a, b); }
int renameat(int c, const char* a, int d, const char* b) { REAL(renameat); if (step("rename", 0)) return -1; return real(c, a, d, b); }
int renameat2(int c, const char* a, int d, const char* b, unsigned f) { REAL(renameat2); if (step("rename", 0)) return -1; return real(c, a, d, b, f); }
int unlink(const char* p) { REAL(unlink); if (step("unlink", 0)) return -1; return real(p); }
int unlinkat(int d, const char* p, int f) { REAL(unlinkat); if (step("unlink", 0)) return -1; return real(d, p, f); }
int rmdir(const char* p) { REAL(rmdir); if (step("rmdir", 0)) return -1; return real(p); }
