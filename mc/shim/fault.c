/* File-system fault injector (LD_PRELOAD).  Counts the modifying file operations of this process on paths under
 * a given directory; at operation number N it either kills the process (after writing the first K bytes, if the
 * operation is a write) or makes the operation fail with a given errno.  Reads are never disturbed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <signal.h>

static char root[PATH_MAX];
static long armed = 0, count = 0, target = -1, keep = 0, fail_errno = 0;
static long sizes[4096];
static char kinds[4096];
static int sticky = 0;

void mc_arm(const char *dir, long n, long k, int err, int stick) {
    strncpy(root, dir, sizeof(root) - 1);
    count = 0; target = n; keep = k; fail_errno = err; sticky = stick; armed = 1;
}
void mc_disarm(void) { armed = 0; }
long mc_count(void) { return count; }
long mc_size(long i) { return sizes[i]; }
int mc_kind(long i) { return kinds[i]; }

static int under(const char *p) {
    char buf[PATH_MAX * 2];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, PATH_MAX)) return 0;
        strcat(buf, "/"); strncat(buf, p, PATH_MAX - 1);
        p = buf;
    }
    return strncmp(p, root, strlen(root)) == 0;
}
static int fd_under(int fd) {
    char link[64], buf[PATH_MAX]; ssize_t n;
    if (!armed) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    n = readlink(link, buf, sizeof buf - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return strncmp(buf, root, strlen(root)) == 0;
}
/* 0: go on; 1: fail with errno */
static int hit(char kind, long size) {
    long i = count++;
    if (i < 4096) { sizes[i] = size; kinds[i] = kind; }
    if (i == target || (sticky && target >= 0 && i > target)) return 1;
    return 0;
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define GATE(kind) if (hit(kind, 0)) { if (!fail_errno) die(); errno = fail_errno; return -1; }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (fd_under(fd)) {
        if (hit('w', (long) n)) {
            size_t k = (size_t) keep < n ? (size_t) keep : n;
            if (k) real(fd, b, k);
            if (!fail_errno) die();
            errno = fail_errno; return -1;
        }
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (fd_under(fd)) GATE('w')
    return real(fd, v, c);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    if (fd_under(o)) GATE('w')
    return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (fd_under(o)) GATE('w')
    return real(o, i, off, n);
}
#define WFLAGS (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)
#define MODE() mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) {
    REAL(int, "open", const char *, int, ...);
    MODE()
    if ((fl & WFLAGS) && under(p)) GATE('o')
    return real(p, fl, m);
}
int open64(const char *p, int fl, ...) {
    REAL(int, "open64", const char *, int, ...);
    MODE()
    if ((fl & WFLAGS) && under(p)) GATE('o')
    return real(p, fl, m);
}
int openat(int d, const char *p, int fl, ...) {
    REAL(int, "openat", int, const char *, int, ...);
    MODE()
    if ((fl & WFLAGS) && under(p)) GATE('o')
    return real(d, p, fl, m);
}
int rename(const char *a, const char *b) {
    REAL(int, "rename", const char *, const char *);
    if (under(a) || under(b)) GATE('r')
    return real(a, b);
}
int renameat(int da, const char *a, int db, const char *b) {
    REAL(int, "renameat", int, const char *, int, const char *);
    if (under(a) || under(b)) GATE('r')
    return real(da, a, db, b);
}
int unlink(const char *a) {
    REAL(int, "unlink", const char *);
    if (under(a)) GATE('u')
    return real(a);
}
int unlinkat(int d, const char *a, int f) {
    REAL(int, "unlinkat", int, const char *, int);
    if (under(a)) GATE('u')
    return real(d, a, f);
}
int link(const char *a, const char *b) {
    REAL(int, "link", const char *, const char *);
    if (under(b)) GATE('l')
    return real(a, b);
}
int ftruncate(int fd, off_t n) {
    REAL(int, "ftruncate", int, off_t);
    if (fd_under(fd)) GATE('t')
    return real(fd, n);
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, "ftruncate64", int, off64_t);
    if (fd_under(fd)) GATE('t')
    return real(fd, n);
}
int truncate(const char *p, off_t n) {
    REAL(int, "truncate", const char *, off_t);
    if (under(p)) GATE('t')
    return real(p, n);
}
int fsync(int fd) {
    REAL(int, "fsync", int);
    if (fd_under(fd)) GATE('s')
    return real(fd);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t);
    if (under(p)) GATE('m')
    return real(p, m);
}
