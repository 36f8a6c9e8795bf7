// Preloaded into the daemon (and the command-line client): moves the port, lets the harness move the
// clock, watches and confines what is done to files, and injects crashes, errors and delays.
// Everything is steered through one shared page (SHIM_CTL); the log of file operations goes to SHIM_LOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NRULES 4
struct rule {
    uint32_t on;          // 1: active
    uint32_t ops;         // mask of 1<<op
    int32_t err;          // errno to give
    uint32_t partial;     // write half first, then fail
    uint64_t from, to;    // operation numbers, inclusive; 0,0: any
    char path[240];       // substring of the path; empty: any
};
struct ctl {
    _Atomic uint32_t port, listening;
    _Atomic uint64_t time_off_ns;
    _Atomic uint64_t ops, crash_at;
    _Atomic uint32_t crash_mode, inflight;
    _Atomic uint32_t delay_prob, delay_us;
    _Atomic uint64_t delay_seed, delays, escapes, faults;
    _Atomic uint32_t op_delay_us, meta_done;
    struct rule rules[NRULES];
};
enum { OPEN, WRITE, RENAME, UNLINK, TRUNC, MKDIR, SYNC, LINK, READ };
static const char *opname[] = {"open", "write", "rename", "unlink", "truncate", "mkdir", "sync", "link", "read"};

static struct ctl *ctl;
static char base[4096];
static size_t baselen;
static int logfd = -1;
static int connect_port;
#define MAXFD 65536
static char *fdpath[MAXFD];

extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    static inline void load_##name(void) { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); }

static void nap(uint32_t us) {
    struct timespec ts = {us / 1000000, (us % 1000000) * 1000L};
    int e = errno;
    syscall(SYS_nanosleep, &ts, NULL);
    errno = e;
}

static __thread uint64_t rng;
static void jitter(void) {
    struct ctl *c = ctl;
    if (!c || !c->delay_prob) return;
    if (!rng) rng = c->delay_seed * 0x9E3779B97F4A7C15ull + (uint64_t)syscall(SYS_gettid) * 0xD1B54A32D192ED03ull + 1;
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    if ((rng & 0xffff) < c->delay_prob) {
        c->delays++;
        uint32_t us = c->delay_us;
        if (us) nap(1 + (uint32_t)((rng >> 20) % us));
    }
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("SHIM_CTL");
    const char *b = getenv("SHIM_BASE");
    const char *l = getenv("SHIM_LOG");
    const char *c = getenv("SHIM_CONNECT");
    if (c) connect_port = atoi(c);
    if (b) {
        snprintf(base, sizeof base, "%s", b);
        baselen = strlen(base);
    }
    if (l) {
        int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
        logfd = fd >= 0 ? fcntl(fd, F_DUPFD_CLOEXEC, 900) : -1;
        if (fd >= 0) syscall(SYS_close, fd);
    }
    if (p) {
        int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
        if (fd >= 0) {
            void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            syscall(SYS_close, fd);
            if (m != MAP_FAILED) ctl = m;
        }
    }
}

// ------------------------------------------------------------------ delays at allocations
void *malloc(size_t n) {
    jitter();
    return __libc_malloc(n);
}
void *realloc(void *p, size_t n) {
    jitter();
    return __libc_realloc(p, n);
}

// ------------------------------------------------------------------ clock
REAL(int, clock_gettime, clockid_t, struct timespec *)
int clock_gettime(clockid_t id, struct timespec *ts) {
    load_clock_gettime();
    int r = real_clock_gettime(id, ts);
    if (r == 0 && ctl && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME)) {
        uint64_t off = ctl->time_off_ns;
        uint64_t ns = (uint64_t)ts->tv_nsec + off % 1000000000ull;
        ts->tv_sec += (time_t)(off / 1000000000ull + ns / 1000000000ull);
        ts->tv_nsec = (long)(ns % 1000000000ull);
    }
    return r;
}
REAL(int, epoll_wait, int, struct epoll_event *, int, int)
int epoll_wait(int fd, struct epoll_event *ev, int n, int timeout) {
    load_epoll_wait();
    if (ctl && (timeout < 0 || timeout > 4)) timeout = 4;
    int r = real_epoll_wait(fd, ev, n, timeout);
    if (r > 0) jitter();
    return r;
}
REAL(int, epoll_pwait, int, struct epoll_event *, int, int, const sigset_t *)
int epoll_pwait(int fd, struct epoll_event *ev, int n, int timeout, const sigset_t *s) {
    load_epoll_pwait();
    if (ctl && (timeout < 0 || timeout > 4)) timeout = 4;
    return real_epoll_pwait(fd, ev, n, timeout, s);
}

// ------------------------------------------------------------------ network
REAL(int, bind, int, const struct sockaddr *, socklen_t)
int bind(int fd, const struct sockaddr *a, socklen_t l) {
    load_bind();
    if (ctl && a && a->sa_family == AF_INET && ((const struct sockaddr_in *)a)->sin_port) {
        struct sockaddr_in b = *(const struct sockaddr_in *)a;
        b.sin_port = 0;
        b.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        int r = real_bind(fd, (struct sockaddr *)&b, sizeof b);
        if (r == 0) {
            socklen_t bl = sizeof b;
            getsockname(fd, (struct sockaddr *)&b, &bl);
            ctl->port = ntohs(b.sin_port);
        }
        return r;
    }
    if (ctl && a && a->sa_family == AF_INET6 && ((const struct sockaddr_in6 *)a)->sin6_port) {
        struct sockaddr_in6 b = *(const struct sockaddr_in6 *)a;
        b.sin6_port = 0;
        int r = real_bind(fd, (struct sockaddr *)&b, sizeof b);
        if (r == 0) {
            socklen_t bl = sizeof b;
            getsockname(fd, (struct sockaddr *)&b, &bl);
            ctl->port = ntohs(b.sin6_port);
        }
        return r;
    }
    return real_bind(fd, a, l);
}
REAL(int, listen, int, int)
int listen(int fd, int n) {
    load_listen();
    int r = real_listen(fd, n);
    if (r == 0 && ctl && ctl->port) ctl->listening = 1;
    return r;
}
REAL(int, connect, int, const struct sockaddr *, socklen_t)
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    load_connect();
    if (connect_port && a && a->sa_family == AF_INET && ntohs(((const struct sockaddr_in *)a)->sin_port) == 7687) {
        struct sockaddr_in b = *(const struct sockaddr_in *)a;
        b.sin_port = htons((uint16_t)connect_port);
        return real_connect(fd, (struct sockaddr *)&b, l);
    }
    return real_connect(fd, a, l);
}

// ------------------------------------------------------------------ files
static void lexical(int dirfd, const char *p, char *out, size_t n) {
    char tmp[8192];
    if (p[0] == '/') {
        snprintf(tmp, sizeof tmp, "%s", p);
    } else {
        char cwd[4096] = "/";
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) strcpy(cwd, "/?");
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t r = syscall(SYS_readlinkat, AT_FDCWD, l, cwd, sizeof cwd - 1);
            cwd[r > 0 ? r : 0] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", cwd, p);
    }
    size_t o = 0;
    char *q = tmp;
    while (*q) {
        while (*q == '/') q++;
        if (!*q) break;
        size_t k = strcspn(q, "/");
        if (k == 1 && q[0] == '.') {
        } else if (k == 2 && q[0] == '.' && q[1] == '.') {
            while (o > 0 && out[o - 1] != '/') o--;
            if (o > 0) o--;
        } else if (o + k + 2 < n) {
            out[o++] = '/';
            memcpy(out + o, q, k);
            o += k;
        }
        q += k;
    }
    if (o == 0) out[o++] = '/';
    out[o] = 0;
}
static int inside(const char *p) {
    return baselen && strncmp(p, base, baselen) == 0 && (p[baselen] == '/' || p[baselen] == 0);
}
static int ignored(const char *p) {
    return strncmp(p, "/dev/", 5) == 0 || strncmp(p, "/proc/", 6) == 0 || strncmp(p, "/sys/", 5) == 0;
}
static void esc(char *out, size_t n, size_t *o, const char *p) {
    for (; *p && *o + 4 < n; p++) {
        unsigned char c = (unsigned char)*p;
        if (c > 32 && c < 127 && c != '%') out[(*o)++] = (char)c;
        else *o += (size_t)snprintf(out + *o, n - *o, "%%%02x", c);
    }
}
static void logline(const char *what, uint64_t op, const char *p, const char *q, long r) {
    if (logfd < 0) return;
    char b[20000];
    size_t o = (size_t)snprintf(b, sizeof b, "%s %llu ", what, (unsigned long long)op);
    esc(b, 14000, &o, p);
    if (q) {
        b[o++] = ' ';
        esc(b, 19900, &o, q);
    }
    o += (size_t)snprintf(b + o, sizeof b - o, " = %ld\n", r);
    int e = errno;
    syscall(SYS_write, logfd, b, o);
    errno = e;
}

// Before an operation: 0 go on, -1 fail with errno, 2 do half and fail, 3 do half and die
static int before(int op, const char *p, const char *q, uint64_t *num) {
    uint64_t n = ++ctl->ops;
    *num = n;
    ctl->inflight++;
    if (ctl->op_delay_us) nap(ctl->op_delay_us);
    if (ctl->crash_at == n && ctl->crash_mode != 1) {
        if (ctl->crash_mode == 2 && op == WRITE) return 3;
        logline("crash-before", n, p, q, op);
        syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
        for (;;) pause();
    }
    for (int i = 0; i < NRULES; i++) {
        struct rule *r = &ctl->rules[i];
        if (!r->on || !(r->ops & (1u << op))) continue;
        if ((r->from || r->to) && (n < r->from || n > r->to)) continue;
        if (r->path[0] && !strstr(p, r->path) && !(q && strstr(q, r->path))) continue;
        ctl->faults++;
        if (op == WRITE && r->partial) {
            errno = r->err;
            return 2;
        }
        logline("fault", n, p, q, r->err);
        errno = r->err;
        ctl->inflight--;
        return -1;
    }
    return 0;
}
static void after(int op, uint64_t n, const char *p, const char *q, long r) {
    int e = errno;
    logline(opname[op], n, p, q, r);
    if (ctl->crash_at == n && ctl->crash_mode == 1) {
        syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
        for (;;) pause();
    }
    ctl->inflight--;
    errno = e;
}
static int escape(const char *what, const char *p) {
    ctl->escapes++;
    logline("ESCAPE", 0, p, what, 0);
    errno = EACCES;
    return -1;
}
static void forget(int fd) {
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
        char *p = fdpath[fd];
        fdpath[fd] = NULL;
        size_t l = strlen(p);
        if (l >= 9 && strcmp(p + l - 9, "/meta.sdb") == 0) ctl->meta_done++;
        free(p);
    }
}

// reading is not counted, but can be made to fail
static int unreadable(int dirfd, const char *path) {
    char p[8192];
    int any = 0;
    for (int i = 0; i < NRULES; i++) any |= ctl->rules[i].on && (ctl->rules[i].ops & (1u << READ));
    if (!any) return 0;
    lexical(dirfd, path, p, sizeof p);
    if (!inside(p)) return 0;
    for (int i = 0; i < NRULES; i++) {
        struct rule *r = &ctl->rules[i];
        if (!r->on || !(r->ops & (1u << READ)) || !strstr(p, r->path)) continue;
        ctl->faults++;
        logline("fault", 0, p, NULL, r->err);
        errno = r->err;
        return 1;
    }
    return 0;
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (ctl && baselen && path && (flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)) && unreadable(dirfd, path)) return -1;
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!ctl || !baselen || !path || !w) return (int)syscall(SYS_openat, dirfd, path, flags, mode);
    char p[8192];
    lexical(dirfd, path, p, sizeof p);
    if (ignored(p)) return (int)syscall(SYS_openat, dirfd, path, flags, mode);
    if (!inside(p)) return escape("open", p);
    uint64_t n;
    if (before(OPEN, p, NULL, &n) < 0) return -1;
    int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) {
        forget(fd);
        fdpath[fd] = strdup(p);
    }
    after(OPEN, n, p, NULL, fd);
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); m = va_arg(v, mode_t); va_end(v); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC | O_LARGEFILE, m); }

static char *tracked(int fd) { return ctl && fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }

static ssize_t do_write(int fd, const void *b, size_t k, int positioned, off_t at) {
    char *p = tracked(fd);
    if (!p) return positioned ? syscall(SYS_pwrite64, fd, b, k, at) : syscall(SYS_write, fd, b, k);
    uint64_t n;
    int d = before(WRITE, p, NULL, &n);
    if (d < 0) return -1;
    if (d > 0) {
        int e = errno;
        size_t h = k / 2;
        if (h) { if (positioned) syscall(SYS_pwrite64, fd, b, h, at); else syscall(SYS_write, fd, b, h); }
        logline(d == 3 ? "crash-half" : "fault-half", n, p, NULL, (long)h);
        if (d == 3) {
            syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
            for (;;) pause();
        }
        ctl->inflight--;
        errno = e;
        return -1;
    }
    ssize_t r = positioned ? syscall(SYS_pwrite64, fd, b, k, at) : syscall(SYS_write, fd, b, k);
    after(WRITE, n, p, NULL, r);
    return r;
}
ssize_t write(int fd, const void *b, size_t k) { return do_write(fd, b, k, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t k, off_t at) { return do_write(fd, b, k, 1, at); }
ssize_t pwrite64(int fd, const void *b, size_t k, off_t at) { return do_write(fd, b, k, 1, at); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!tracked(fd)) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t k, unsigned f) {
    char *p = tracked(b);
    if (!p) return syscall(SYS_copy_file_range, a, ao, b, bo, k, f);
    uint64_t n;
    int d = before(WRITE, p, NULL, &n);
    if (d < 0) return -1;
    if (d > 0) {
        int e = errno;
        if (d == 3) {
            syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
            for (;;) pause();
        }
        ctl->inflight--;
        errno = e;
        return -1;
    }
    ssize_t r = syscall(SYS_copy_file_range, a, ao, b, bo, k, f);
    after(WRITE, n, p, NULL, r);
    return r;
}
ssize_t sendfile(int b, int a, off_t *ao, size_t k) {
    char *p = tracked(b);
    if (!p) return syscall(SYS_sendfile, b, a, ao, k);
    uint64_t n;
    if (before(WRITE, p, NULL, &n)) { return -1; }
    ssize_t r = syscall(SYS_sendfile, b, a, ao, k);
    after(WRITE, n, p, NULL, r);
    return r;
}
ssize_t sendfile64(int b, int a, off64_t *ao, size_t k) { return sendfile(b, a, (off_t *)ao, k); }
static int do_ftrunc(int fd, off_t l) {
    char *p = tracked(fd);
    if (!p) return (int)syscall(SYS_ftruncate, fd, l);
    uint64_t n;
    if (before(TRUNC, p, NULL, &n) < 0) return -1;
    int r = (int)syscall(SYS_ftruncate, fd, l);
    after(TRUNC, n, p, NULL, r);
    return r;
}
int ftruncate(int fd, off_t l) { return do_ftrunc(fd, l); }
int ftruncate64(int fd, off64_t l) { return do_ftrunc(fd, l); }
static int do_sync(int fd, int nr) {
    char *p = tracked(fd);
    if (!p) return (int)syscall(nr, fd);
    uint64_t n;
    if (before(SYNC, p, NULL, &n) < 0) return -1;
    int r = (int)syscall(nr, fd);
    after(SYNC, n, p, NULL, r);
    return r;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
int close(int fd) {
    if (ctl) {
        if (fd == logfd) return 0;
        forget(fd);
    }
    return (int)syscall(SYS_close, fd);
}

static int two(int op, int ad, const char *a, int bd, const char *b, int nr, unsigned flags) {
    if (!ctl || !baselen) goto direct;
    char p[8192], q[8192];
    lexical(ad, a, p, sizeof p);
    lexical(bd, b, q, sizeof q);
    if (!inside(p)) return escape(opname[op], p);
    if (!inside(q)) return escape(opname[op], q);
    uint64_t n;
    if (before(op, p, q, &n) < 0) return -1;
    int r = nr == SYS_renameat2 ? (int)syscall(nr, ad, a, bd, b, flags) : (int)syscall(nr, ad, a, bd, b, (int)flags);
    after(op, n, p, q, r);
    size_t l = strlen(q);
    if (r == 0 && l >= 9 && strcmp(q + l - 9, "/meta.sdb") == 0) ctl->meta_done++;
    return r;
direct:
    return (int)syscall(nr, ad, a, bd, b, flags);
}
int rename(const char *a, const char *b) { return two(RENAME, AT_FDCWD, a, AT_FDCWD, b, SYS_renameat2, 0); }
int renameat(int x, const char *a, int y, const char *b) { return two(RENAME, x, a, y, b, SYS_renameat2, 0); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { return two(RENAME, x, a, y, b, SYS_renameat2, f); }
int link(const char *a, const char *b) { return two(LINK, AT_FDCWD, a, AT_FDCWD, b, SYS_linkat, 0); }
int linkat(int x, const char *a, int y, const char *b, int f) { return two(LINK, x, a, y, b, SYS_linkat, (unsigned)f); }

static int one(int op, int d, const char *a, int nr, unsigned arg) {
    if (!ctl || !baselen) return (int)syscall(nr, d, a, arg);
    char p[8192];
    lexical(d, a, p, sizeof p);
    if (!inside(p)) {
        // looking for a folder that is there is harmless
        if (op == MKDIR) {
            struct stat st;
            if (stat(p, &st) == 0) {
                errno = EEXIST;
                return -1;
            }
        }
        return escape(opname[op], p);
    }
    uint64_t n;
    if (before(op, p, NULL, &n) < 0) return -1;
    int r = (int)syscall(nr, d, a, arg);
    after(op, n, p, NULL, r);
    return r;
}
int unlink(const char *a) { return one(UNLINK, AT_FDCWD, a, SYS_unlinkat, 0); }
int unlinkat(int d, const char *a, int f) { return one(UNLINK, d, a, SYS_unlinkat, (unsigned)f); }
int rmdir(const char *a) { return one(UNLINK, AT_FDCWD, a, SYS_unlinkat, AT_REMOVEDIR); }
int remove(const char *a) { return one(UNLINK, AT_FDCWD, a, SYS_unlinkat, 0); }
int mkdir(const char *a, mode_t m) { return one(MKDIR, AT_FDCWD, a, SYS_mkdirat, m); }
int mkdirat(int d, const char *a, mode_t m) { return one(MKDIR, d, a, SYS_mkdirat, m); }
static int do_trunc(const char *a, off_t l) {
    if (!ctl || !baselen) return (int)syscall(SYS_truncate, a, l);
    char p[8192];
    lexical(AT_FDCWD, a, p, sizeof p);
    if (!inside(p)) return escape("truncate", p);
    uint64_t n;
    if (before(TRUNC, p, NULL, &n) < 0) return -1;
    int r = (int)syscall(SYS_truncate, a, l);
    after(TRUNC, n, p, NULL, r);
    return r;
}
int truncate(const char *a, off_t l) { return do_trunc(a, l); }
int truncate64(const char *a, off64_t l) { return do_trunc(a, l); }
int symlink(const char *a, const char *b) { return !ctl || !baselen ? (int)syscall(SYS_symlinkat, a, AT_FDCWD, b) : one(LINK, AT_FDCWD, b, SYS_mkdirat, 0); }
int symlinkat(const char *a, int d, const char *b) { return !ctl || !baselen ? (int)syscall(SYS_symlinkat, a, d, b) : one(LINK, d, b, SYS_mkdirat, 0); }
