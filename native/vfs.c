/* Fault seam: the calls which change files (or talk to a unix socket) below one folder are
 * counted, and can be cut off from the n-th on (the process "dies": nothing has an effect
 * anymore, the n-th write may be torn after k bytes) or fail once. Off until asked for. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

enum { OFF, COUNT, CUT, FAIL };
static int mode = OFF, err = EIO;
static char prefix[PATH_MAX];
static size_t plen;
static long at, torn, count, dead;
static unsigned char mine[65536];
#define LOGMAX 4096
static int64_t lens[LOGMAX];
static char kinds[LOGMAX];

void vfs_setup(const char *p, int m, long n, long k, int e) {
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    at = n; torn = k; err = e; count = 0; dead = 0; mode = m;
}
void vfs_off(void) { mode = OFF; }
void vfs_forget(void) { memset(mine, 0, sizeof mine); }
long vfs_count(void) { return count; }
int64_t vfs_len(long i) { return i < LOGMAX ? lens[i] : -1; }
int vfs_kind(long i) { return i < LOGMAX ? kinds[i] : '?'; }
int vfs_dead(void) { return (int)dead; }

static int below(const char *p) {
    return mode != OFF && p && !strncmp(p, prefix, plen) && (p[plen] == 0 || p[plen] == '/');
}
static int fd_mine(int fd) { return mode != OFF && fd >= 0 && fd < (int)sizeof mine && mine[fd]; }
static void mark(int fd, int on) { if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = on; }

/* 0: go on, 1: fail; *part: bytes to write first (-1: none) */
static int gate(char kind, int64_t len, long *part) {
    if (part) *part = -1;
    if (dead) { errno = err; return 1; }
    long i = count++;
    if (i < LOGMAX) { lens[i] = len; kinds[i] = kind; }
    if (mode == COUNT || i != at) return 0;
    if (mode == CUT) dead = 1;
    if (part && torn >= 0) *part = torn > len ? len : torn;
    errno = err;
    return 1;
}

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

#define OPEN(name) \
int name(const char *p, int flags, ...) { \
    REAL(name); mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (!below(p)) { int fd = real(p, flags, m); if (mode != OFF) mark(fd, 0); return fd; } \
    int exists = !access(p, F_OK); \
    if (((flags & O_CREAT) && !exists) || ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY)) \
        if (gate('o', 0, 0)) return -1; \
    int fd = real(p, flags, m); mark(fd, 1); return fd; \
}
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *p, int flags, ...) { \
    REAL(name); mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (!below(p)) { int fd = real(d, p, flags, m); if (mode != OFF) mark(fd, 0); return fd; } \
    int exists = !access(p, F_OK); \
    if (((flags & O_CREAT) && !exists) || ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY)) \
        if (gate('o', 0, 0)) return -1; \
    int fd = real(d, p, flags, m); mark(fd, 1); return fd; \
}
OPENAT(openat)
OPENAT(openat64)
int close(int fd) { REAL(close); mark(fd, 0); return real(fd); }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write); long part;
    if (!fd_mine(fd)) return real(fd, b, n);
    if (gate('w', n, &part)) { int e = errno; if (part > 0) { ssize_t r = real(fd, b, part); (void)r; } errno = e; return -1; }
    return real(fd, b, n);
}
#define PWRITE(name, off) \
ssize_t name(int fd, const void *b, size_t n, off o) { \
    REAL(name); long part; \
    if (!fd_mine(fd)) return real(fd, b, n, o); \
    if (gate('w', n, &part)) { int e = errno; if (part > 0) { ssize_t r = real(fd, b, part, o); (void)r; } errno = e; return -1; } \
    return real(fd, b, n, o); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); if (fd_mine(fd) && gate('w', 0, 0)) return -1; return real(fd, v, n); }
ssize_t send(int fd, const void *b, size_t n, int f) {
    REAL(send); long part;
    if (!fd_mine(fd)) return real(fd, b, n, f);
    if (gate('s', n, &part)) { if (part > 0) { ssize_t r = real(fd, b, part, f); (void)r; } errno = EPIPE; return -1; }
    return real(fd, b, n, f);
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    REAL(connect);
    if (mode != OFF && a && a->sa_family == AF_UNIX) {
        if (dead) { errno = ECONNREFUSED; return -1; }
        mark(fd, below(((const struct sockaddr_un *)a)->sun_path));
    }
    return real(fd, a, l);
}
int rename(const char *a, const char *b) { REAL(rename); if ((below(a) || below(b)) && gate('r', 0, 0)) return -1; return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); if ((below(a) || below(b)) && gate('r', 0, 0)) return -1; return real(x, a, y, b); }
int link(const char *a, const char *b) { REAL(link); if (below(b) && gate('l', 0, 0)) return -1; return real(a, b); }
int symlink(const char *a, const char *b) { REAL(symlink); if (below(b) && gate('l', 0, 0)) return -1; return real(a, b); }
int unlink(const char *a) { REAL(unlink); if (below(a) && gate('u', 0, 0)) return -1; return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); if ((below(a) || fd_mine(d)) && gate('u', 0, 0)) return -1; return real(d, a, f); }
int remove(const char *a) { REAL(remove); if (below(a) && gate('u', 0, 0)) return -1; return real(a); }
int rmdir(const char *a) { REAL(rmdir); if (below(a) && gate('u', 0, 0)) return -1; return real(a); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); if (below(a) && access(a, F_OK) && gate('d', 0, 0)) return -1; return real(a, m); }
#define TRUNC(name, off) int name(int fd, off n) { REAL(name); if (fd_mine(fd) && gate('t', 0, 0)) return -1; return real(fd, n); }
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)
