/* Counts the file operations of a program below FAULT_ROOT, logs them, and at
 * the FAULT_AT-th kills the program, makes the operation fail, or cuts it short.
 * FAULT_MODE: log, kill, part (a write is half done, then killed), err, full
 * (this and all later writes fail), short, stop (until it is told to go on; at
 * each of a list of operations). FAULT_ERRNO: which error. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[PATH_MAX];
static int at = -1, err = EIO, count, logfd = -1, ready, busy, full;
static enum { LOG, KILL, PART, ERR, FULL, SHORT, STOP } mode;
static int stops[64], nstops;
static char fds[1024];

static void init(void) {
    if (ready) return;
    ready = 1;
    const char *s;
    if (!(s = getenv("FAULT_ROOT"))) { ready = 2; return; }
    strncpy(root, s, sizeof root - 1);
    if ((s = getenv("FAULT_AT"))) {
        at = atoi(s);
        for (; s && *s && nstops < 64; s = strchr(s, ','), s += s != NULL) stops[nstops++] = atoi(s);
    }
    if ((s = getenv("FAULT_ERRNO"))) err = atoi(s);
    if ((s = getenv("FAULT_MODE")))
        mode = !strcmp(s, "kill") ? KILL : !strcmp(s, "part") ? PART : !strcmp(s, "err") ? ERR
             : !strcmp(s, "full") ? FULL : !strcmp(s, "short") ? SHORT : !strcmp(s, "stop") ? STOP : LOG;
    if ((s = getenv("FAULT_LOG"))) {
        int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
        if (fd >= 0) { logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, fd); }
    }
    fds[1] = 1;
}
__attribute__((constructor)) static void start(void) { init(); }

static int ours(const char *p) {
    init();
    if (ready == 2 || !p || !*p) return 0;
    if (p[0] != '/') return 1;
    size_t n = strlen(root);
    return !strncmp(p, root, n) && (p[n] == '/' || !p[n]);
}
static int fd_ours(int fd) { init(); return ready == 1 && fd >= 0 && fd < 1024 && fds[fd]; }
static void mark(int fd, int yes) { if (fd >= 0 && fd < 1024) fds[fd] = yes; }

static void put(const char *s, size_t n) { if (logfd >= 0) { ssize_t r = syscall(SYS_write, logfd, s, n); (void)r; } }
static void say(const char *fmt, ...) {
    if (logfd < 0) return;
    char b[3 * PATH_MAX];
    va_list v;
    va_start(v, fmt);
    int n = vsnprintf(b, sizeof b, fmt, v);
    va_end(v);
    put(b, n);
}
static void say_data(const char *d, size_t n) {
    if (logfd < 0) return;
    static const char hex[] = "0123456789abcdef";
    char *b = malloc(2 * n + 2);
    for (size_t i = 0; i < n; i++) { b[2 * i] = hex[(unsigned char)d[i] >> 4]; b[2 * i + 1] = hex[d[i] & 15]; }
    b[2 * n] = '\n';
    put(b, 2 * n + 1);
    free(b);
}
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) ; }

/* is it the turn of this operation? 0: go on, 1: fail, 2: cut short (writes, reads) */
static int turn(int rw) {
    int n = ++count;
    if (rw == 2 && full) { errno = err; return 1; }
    if (mode == STOP) {
        for (int i = 0; i < nstops; i++)
            if (stops[i] == n) syscall(SYS_kill, syscall(SYS_getpid), SIGSTOP);
        return 0;
    }
    if (n != at) return 0;
    switch (mode) {
    case KILL: die();
    case PART: if (rw == 2) return 2; die();
    case ERR: errno = err; return 1;
    case FULL: full = 1; if (rw == 2) { errno = err; return 1; } return 0;
    case SHORT: return rw ? 2 : 0;
    default: return 0;
    }
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name)

#define OPEN(name) \
    int name(const char *p, int flags, ...) { \
        REAL(name); \
        mode_t m = 0; \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); m = va_arg(v, mode_t); va_end(v); } \
        if (!ours(p)) return real(p, flags, m); \
        if (turn(0)) { say("fail open\n"); return -1; } \
        int fd = real(p, flags, m); int e = errno; \
        mark(fd, 1); \
        say("open %d %d %s\n", fd, flags, p); errno = e; \
        return fd; \
    }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
    int name(int d, const char *p, int flags, ...) { \
        REAL(name); \
        mode_t m = 0; \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); m = va_arg(v, mode_t); va_end(v); } \
        if (!ours(p)) return real(d, p, flags, m); \
        if (turn(0)) { say("fail open\n"); return -1; } \
        int fd = real(d, p, flags, m); int e = errno; \
        mark(fd, 1); \
        say("open %d %d %s\n", fd, flags, p); errno = e; \
        return fd; \
    }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    REAL(close);
    if (!fd_ours(fd) || fd == 1) return real(fd);
    int t = turn(0);
    mark(fd, 0);
    say("close %d\n", fd);
    int r = real(fd);
    if (t) { errno = err; return -1; }
    return r;
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!fd_ours(fd)) return real(fd, b, n);
    int t = turn(2);
    if (t == 1) { say("fail write\n"); return -1; }
    if (t == 2) n = n / 2 + (mode == SHORT && n < 2);
    ssize_t r = real(fd, b, n);
    int e = errno;
    if (r >= 0) { say("write %d ", fd); say_data(b, r); }
    if (t == 2 && mode == PART) die();
    errno = e;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    REAL(writev);
    if (!fd_ours(fd)) return real(fd, v, k);
    for (int i = 0; i < k; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    if (!fd_ours(fd)) return real(fd, b, n, o);
    if (turn(2) == 1) return -1;
    say("unknown pwrite\n");
    return real(fd, b, n, o);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if (!fd_ours(fd) || fd == 1) return real(fd, b, n);
    int t = turn(1);
    if (t == 1) { say("fail read\n"); return -1; }
    if (t == 2 && n > 1) n = n > 8 ? 3 : n / 2;
    say("read %d\n", fd);
    return real(fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int k) {
    REAL(readv);
    if (!fd_ours(fd)) return real(fd, v, k);
    for (int i = 0; i < k; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(pread64);
    if (!fd_ours(fd)) return real(fd, b, n, o);
    if (turn(1) == 1) return -1;
    return real(fd, b, n, o);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (!fd_ours(o)) return real(i, io, o, oo, n, f);
    if (turn(0)) return -1;
    say("unknown copy\n");
    return real(i, io, o, oo, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(sendfile64);
    if (!fd_ours(o)) return real(o, i, off, n);
    if (turn(0)) return -1;
    say("unknown sendfile\n");
    return real(o, i, off, n);
}
#define TWO(name) \
    int name(const char *a, const char *b) { \
        REAL(name); \
        if (!ours(a) && !ours(b)) return real(a, b); \
        if (turn(0)) { say("fail " #name "\n"); return -1; } \
        int r = real(a, b), e = errno; \
        say(#name " %d\n%s\n%s\n", r, a, b); errno = e; \
        return r; \
    }
TWO(rename)
TWO(link)
TWO(symlink)
int renameat(int d, const char *a, int g, const char *b) {
    REAL(renameat);
    if (!ours(a) && !ours(b)) return real(d, a, g, b);
    if (turn(0)) { say("fail rename\n"); return -1; }
    int r = real(d, a, g, b), e = errno;
    say("rename %d\n%s\n%s\n", r, a, b); errno = e;
    return r;
}
int renameat2(int d, const char *a, int g, const char *b, unsigned f) {
    REAL(renameat2);
    if (!ours(a) && !ours(b)) return real(d, a, g, b, f);
    if (turn(0)) { say("fail rename\n"); return -1; }
    say("unknown renameat2\n");
    return real(d, a, g, b, f);
}
int linkat(int d, const char *a, int g, const char *b, int f) {
    REAL(linkat);
    if (!ours(a) && !ours(b)) return real(d, a, g, b, f);
    if (turn(0)) return -1;
    say("unknown linkat\n");
    return real(d, a, g, b, f);
}
#define ONE(name) \
    int name(const char *a) { \
        REAL(name); \
        if (!ours(a)) return real(a); \
        if (turn(0)) { say("fail " #name "\n"); return -1; } \
        int r = real(a), e = errno; \
        say(#name " %d %s\n", r, a); errno = e; \
        return r; \
    }
ONE(unlink)
ONE(rmdir)
int unlinkat(int d, const char *a, int f) {
    REAL(unlinkat);
    if (!ours(a)) return real(d, a, f);
    if (turn(0)) { say("fail unlink\n"); return -1; }
    int r = real(d, a, f), e = errno;
    say("unlink %d %s\n", r, a); errno = e;
    return r;
}
int mkdir(const char *a, mode_t m) {
    REAL(mkdir);
    if (!ours(a)) return real(a, m);
    if (turn(0)) return -1;
    say("unknown mkdir\n");
    return real(a, m);
}
int chmod(const char *a, mode_t m) {
    REAL(chmod);
    if (!ours(a)) return real(a, m);
    if (turn(0)) { say("fail chmod\n"); return -1; }
    int r = real(a, m), e = errno;
    say("chmod %d %u %s\n", r, (unsigned)m, a); errno = e;
    return r;
}
int fchmodat(int d, const char *a, mode_t m, int f) {
    REAL(fchmodat);
    if (!ours(a)) return real(d, a, m, f);
    if (turn(0)) { say("fail chmod\n"); return -1; }
    int r = real(d, a, m, f), e = errno;
    say("chmod %d %u %s\n", r, (unsigned)m, a); errno = e;
    return r;
}
int fchmod(int fd, mode_t m) {
    REAL(fchmod);
    if (!fd_ours(fd)) return real(fd, m);
    if (turn(0)) { say("fail chmod\n"); return -1; }
    int r = real(fd, m), e = errno;
    say("fchmod %d %u %d\n", r, (unsigned)m, fd); errno = e;
    return r;
}
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    if (!fd_ours(fd)) return real(fd, n);
    if (turn(0)) { say("fail truncate\n"); return -1; }
    say("truncate %d %ld\n", fd, (long)n);
    return real(fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off64_t n) {
    REAL(truncate64);
    if (!ours(p)) return real(p, n);
    if (turn(0)) return -1;
    say("unknown truncate\n");
    return real(p, n);
}
off64_t lseek64(int fd, off64_t o, int w) {
    REAL(lseek64);
    if (!fd_ours(fd) || fd == 1) return real(fd, o, w);
    if (turn(0)) { say("fail seek\n"); return -1; }
    off64_t r = real(fd, o, w);
    say("seek %d %ld\n", fd, (long)r);
    return r;
}
#define SYNC(name) \
    int name(int fd) { \
        REAL(name); \
        if (!fd_ours(fd)) return real(fd); \
        if (turn(0)) { say("fail sync\n"); return -1; } \
        say("sync\n"); \
        return real(fd); \
    }
SYNC(fsync)
SYNC(fdatasync)
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b) {
    REAL(statx);
    const char *volatile q = p;   /* the library declares p not to be null, but it may be */
    if (!(q && *q ? ours(q) : fd_ours(d))) return real(d, p, f, m, b);
    if (turn(0)) { say("fail stat\n"); return -1; }
    say("stat\n");
    return real(d, p, f, m, b);
}
#define STAT(name) \
    int name(const char *restrict p, struct stat64 *restrict b) { \
        REAL(name); \
        if (!ours(p)) return real(p, b); \
        if (turn(0)) { say("fail stat\n"); return -1; } \
        say("stat\n"); \
        return real(p, b); \
    }
STAT(stat64)
STAT(lstat64)
int fstat64(int fd, struct stat64 *b) {
    REAL(fstat64);
    if (!fd_ours(fd) || fd == 1) return real(fd, b);
    if (turn(0)) { say("fail stat\n"); return -1; }
    say("stat\n");
    return real(fd, b);
}
