/* Counts the file operations below one directory and ends the process, or fails, at one of them.
   crashfs_arm(dir, k, mode, prefix): at the k-th operation (1-based)
     mode 0: only count; 1: die before it; 2: for writes: write `prefix` bytes, then die (others: die after it);
     mode 3: fail with errno = prefix.                                                                       */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir_[PATH_MAX];
static long count, at, mode, prefix;
static long sizes[65536];
static char kinds[65536];

void crashfs_arm(const char *d, long k, long m, long p) {
    strncpy(dir_, d, sizeof dir_ - 1); count = 0; at = k; mode = m; prefix = p;
}
void crashfs_disarm(void) { dir_[0] = 0; }
long crashfs_count(void) { return count; }
long crashfs_size(long i) { return sizes[i]; }
int crashfs_kind(long i) { return kinds[i]; }

static int below(const char *p) {
    char cwd[PATH_MAX];
    size_t n = strlen(dir_);
    if (!n || !p) return 0;
    if (p[0] != '/') { if (!getcwd(cwd, sizeof cwd)) return 0; return !strncmp(cwd, dir_, n); }
    return !strncmp(p, dir_, n);
}
static int fd_below(int fd) {
    char l[64], p[PATH_MAX];
    ssize_t n;
    if (!dir_[0]) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    n = readlink(l, p, sizeof p - 1);
    if (n <= 0) return 0;
    p[n] = 0;
    return below(p);
}
/* 0: go on; 1: go on and die afterwards; -1: fail */
static int step(char kind, long size) {
    if (count < 65535) { kinds[count] = kind; sizes[count] = size; }
    if (++count != at || mode == 0) return 0;
    if (mode == 1) _exit(77);
    if (mode == 3) { errno = (int)prefix; return -1; }
    return 1;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define DIE(s) do { if ((s) == 1) _exit(77); } while (0)

static int writing(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }
#define OPEN(NAME) \
int NAME(const char *p, int fl, ...) { \
    mode_t m = 0; int s = 0, r; va_list a; \
    REAL(int, #NAME, const char *, int, ...); \
    if (fl & (O_CREAT | O_TMPFILE)) { va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    if (writing(fl) && below(p)) { s = step('o', 0); if (s < 0) return -1; } \
    r = real(p, fl, m); DIE(s); return r; }
OPEN(open)
OPEN(open64)
#define OPENAT(NAME) \
int NAME(int d, const char *p, int fl, ...) { \
    mode_t m = 0; int s = 0, r; va_list a; \
    REAL(int, #NAME, int, const char *, int, ...); \
    if (fl & (O_CREAT | O_TMPFILE)) { va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    if (writing(fl) && below(p)) { s = step('o', 0); if (s < 0) return -1; } \
    r = real(d, p, fl, m); DIE(s); return r; }
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (fd_below(fd)) {
        int s = step('w', n);
        if (s < 0) return -1;
        if (s == 1) { size_t k = (size_t)prefix < n ? (size_t)prefix : n; if (k) real(fd, b, k); _exit(77); }
    }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (fd_below(fd)) {
        int s = step('w', n);
        if (s < 0) return -1;
        if (s == 1) { size_t k = (size_t)prefix < n ? (size_t)prefix : n; if (k) real(fd, b, k, o); _exit(77); }
    }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    int s = 0; ssize_t r;
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (fd_below(fd)) { s = step('w', 0); if (s < 0) return -1; }
    r = real(fd, v, c); DIE(s); return r;
}
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) {
    int s = 0; ssize_t r;
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (fd_below(o)) { s = step('w', n); if (s < 0) return -1; if (s == 1 && (size_t)prefix < n) n = prefix; }
    r = real(o, i, f, n); DIE(s); return r;
}
ssize_t sendfile(int o, int i, off_t *f, size_t n) { return sendfile64(o, i, (off64_t *)f, n); }
ssize_t copy_file_range(int i, off64_t *fi, int o, off64_t *fo, size_t n, unsigned fl) {
    int s = 0; ssize_t r;
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (fd_below(o)) { s = step('w', n); if (s < 0) return -1; if (s == 1 && (size_t)prefix < n) n = prefix; }
    r = real(i, fi, o, fo, n, fl); DIE(s); return r;
}
#define FDOP(NAME, K) \
int NAME(int fd) { int s = 0, r; REAL(int, #NAME, int); \
    if (fd_below(fd)) { s = step(K, 0); if (s < 0) return -1; } \
    r = real(fd); DIE(s); return r; }
FDOP(fsync, 's')
FDOP(fdatasync, 's')
int close(int fd) {
    int s = 0, r; struct stat st; REAL(int, "close", int);
    if (fd_below(fd) && !fstat(fd, &st) && S_ISREG(st.st_mode) && writing(fcntl(fd, F_GETFL))) {
        s = step('c', 0);
        if (s < 0) { int e = errno; real(fd); errno = e; return -1; }
    }
    r = real(fd); DIE(s); return r;
}
int ftruncate64(int fd, off64_t n) { int s = 0, r; REAL(int, "ftruncate64", int, off64_t);
    if (fd_below(fd)) { s = step('t', 0); if (s < 0) return -1; }
    r = real(fd, n); DIE(s); return r; }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
#define TWO(NAME, K) \
int NAME(const char *a, const char *b) { int s = 0, r; REAL(int, #NAME, const char *, const char *); \
    if (below(a) || below(b)) { s = step(K, 0); if (s < 0) return -1; } \
    r = real(a, b); DIE(s); return r; }
TWO(rename, 'r')
TWO(link, 'l')
int unlink(const char *a) { int s = 0, r; REAL(int, "unlink", const char *);
    if (below(a)) { s = step('u', 0); if (s < 0) return -1; }
    r = real(a); DIE(s); return r; }
int chmod(const char *a, mode_t m) { int s = 0, r; REAL(int, "chmod", const char *, mode_t);
    if (below(a)) { s = step('m', 0); if (s < 0) return -1; }
    r = real(a, m); DIE(s); return r; }
int renameat(int d, const char *a, int e, const char *b) { int s = 0, r; REAL(int, "renameat", int, const char *, int, const char *);
    if (below(a) || below(b)) { s = step('r', 0); if (s < 0) return -1; }
    r = real(d, a, e, b); DIE(s); return r; }
