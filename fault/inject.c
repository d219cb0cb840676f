// Fault injector, preloaded into the real dump_syms: counts the operations on its outputs (or
// inputs) and makes the chosen one fail, be cut short, or the process die there.
//   INJ_ROOT   directory of the outputs     INJ_OUT1  if set, standard output is an output too
//   INJ_IN     directory of the inputs      INJ_CLASS "in": count operations on inputs instead
//   INJ_PLAN   comma-separated K=WHAT (operation K) or K+=WHAT (K and all later ones), the first
//              that applies counts; WHAT: err:N | short:N | zero | die | torn:N | dieafter
//              stop (make INJ_GATE.at, go on when INJ_GATE.go exists; .at2, .go2 the next time)
//   INJ_LOG    file that gets one line per counted operation
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[4096], in[4096];
static int out1, cls_in, logfd = -1;
static __thread long num;
enum { NONE, ERR, SHORT, ZERO, DIE, TORN, DIEAFTER, STOP };
static struct { long at, num; int kind, plus; } plan[16];
static int nplan;
static atomic_long count;
static unsigned char isout[4096], isin[4096];

__attribute__((constructor)) static void init(void) {
    char *s;
    if ((s = getenv("INJ_ROOT"))) strncpy(root, s, sizeof root - 1);
    if ((s = getenv("INJ_IN"))) strncpy(in, s, sizeof in - 1);
    out1 = getenv("INJ_OUT1") != 0;
    if (out1) isout[1] = 1;
    cls_in = (s = getenv("INJ_CLASS")) && !strcmp(s, "in");
    s = getenv("INJ_PLAN");
    while (s && *s && nplan < 16) {
        plan[nplan].at = strtol(s, &s, 10);
        if (*s == '+') plan[nplan].plus = 1, s++;
        if (*s == '=') s++;
        char *e = strchrnul(s, ','), *c = memchr(s, ':', e - s);
        plan[nplan].num = c ? atol(c + 1) : 0;
        int kind = NONE;
        if (!strncmp(s, "err", 3)) kind = ERR;
        else if (!strncmp(s, "short", 5)) kind = SHORT;
        else if (!strncmp(s, "zero", 4)) kind = ZERO;
        else if (!strncmp(s, "dieafter", 8)) kind = DIEAFTER;
        else if (!strncmp(s, "die", 3)) kind = DIE;
        else if (!strncmp(s, "torn", 4)) kind = TORN;
        else if (!strncmp(s, "stop", 4)) kind = STOP;
        plan[nplan++].kind = kind;
        s = *e ? e + 1 : e;
    }
    if ((s = getenv("INJ_LOG"))) {
        int f = syscall(SYS_openat, AT_FDCWD, s, O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC | O_APPEND, 0666);
        logfd = syscall(SYS_fcntl, f, F_DUPFD_CLOEXEC, 900);
        syscall(SYS_close, f);
    }
}

static int under(const char *d, const char *p) {
    size_t n = strlen(d);
    return n && p && !strncmp(d, p, n) && (p[n] == '/' || p[n] == 0);
}

// what to do with this operation; class 0: output, 1: input
static int hit(int class, const char *op, const char *p, long len) {
    if (class != cls_in) return NONE;
    long k = atomic_fetch_add(&count, 1);
    int h = NONE;
    for (int i = 0; i < nplan; i++)
        if (k == plan[i].at || (plan[i].plus && k > plan[i].at)) {
            h = plan[i].kind;
            num = plan[i].num;
            break;
        }
    if (logfd >= 0) {
        char b[5000];
        int n = snprintf(b, sizeof b, "%ld %s %ld %d %s\n", k, op, len, h, p);
        syscall(SYS_write, logfd, b, n);
    }
    if (h == DIE) syscall(SYS_exit_group, 137);
    if (h == STOP) {
        static int nth;
        char b[4200], *g = getenv("INJ_GATE"), *t = nth++ ? "2" : "";
        snprintf(b, sizeof b, "%s.at%s", g ? g : "", t);
        int f = syscall(SYS_openat, AT_FDCWD, b, O_CREAT | O_WRONLY | O_CLOEXEC, 0666);
        syscall(SYS_close, f);
        snprintf(b, sizeof b, "%s.go%s", g ? g : "", t);
        for (int i = 0; i < 20000 && access(b, F_OK); i++) usleep(500);
        return NONE;
    }
    return h;
}
static void after(int h) {
    if (h == DIEAFTER || h == TORN) syscall(SYS_exit_group, 137);
}
static long ret(long r) { return r; }

static int do_open(int dfd, const char *p, int fl, int mode) {
    int w = fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND);
    int o = w && under(root, p), i = !w && under(in, p);
    int h = NONE;
    if (o || i) {
        h = hit(i, w ? "create" : "open", p, 0);
        if (h == ERR) { errno = num; return -1; }
    }
    int r = syscall(SYS_openat, dfd, p, fl, mode);
    if (r >= 0 && r < 4096) { isout[r] = o; isin[r] = i; }
    after(h);
    return r;
}
#define MODE int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); mode = va_arg(v, int); va_end(v); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, mode); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl | O_LARGEFILE, mode); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, mode); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_TRUNC | O_WRONLY, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

int close(int fd) {
    if (fd == logfd && fd >= 0) return 0;
    if (fd >= 0 && fd < 4096 && fd != 1) isout[fd] = isin[fd] = 0;
    return ret(syscall(SYS_close, fd));
}

#define O(fd) ((fd) >= 0 && (fd) < 4096 && isout[fd])
#define I(fd) ((fd) >= 0 && (fd) < 4096 && isin[fd])
static size_t cut(size_t n) {
    // -1: all but one, -2: half
    if (num == -1) return n ? n - 1 : 0;
    if (num == -2) return n / 2;
    return (size_t)num < n ? (size_t)num : n;
}
static const char *nm(int fd) { static __thread char b[24]; snprintf(b, sizeof b, "fd%d", fd == 1 ? 1 : 0); return b; }

ssize_t write(int fd, const void *b, size_t n) {
    if (!O(fd)) return ret(syscall(SYS_write, fd, b, n));
    int h = hit(0, "write", nm(fd), n);
    if (h == ERR) { errno = num; return -1; }
    if (h == ZERO) return 0;
    if (h == SHORT && n) n = cut(n) ? cut(n) : 1;
    if (h == TORN) n = cut(n);
    ssize_t r = syscall(SYS_write, fd, b, n);
    after(h);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!O(fd)) return ret(syscall(SYS_writev, fd, v, c));
    // a legal short write: the first part only
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    if (!O(fd)) return ret(syscall(SYS_pwrite64, fd, b, n, o));
    int h = hit(0, "pwrite", nm(fd), n);
    if (h == ERR) { errno = num; return -1; }
    if (h == ZERO) return 0;
    if (h == SHORT && n) n = cut(n) ? cut(n) : 1;
    if (h == TORN) n = cut(n);
    ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
    after(h);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

ssize_t read(int fd, void *b, size_t n) {
    if (!I(fd)) return ret(syscall(SYS_read, fd, b, n));
    int h = hit(1, "read", nm(fd), n);
    if (h == ERR) { errno = num; return -1; }
    if (h == SHORT) { n = cut(n); if (!n) n = 1; }
    return syscall(SYS_read, fd, b, n);
}

#define FDOP(name, nr) int name(int fd) { \
    if (!O(fd)) return syscall(nr, fd); \
    int h = hit(0, #name, nm(fd), 0); \
    if (h == ERR) { errno = num; return -1; } \
    int r = syscall(nr, fd); after(h); return r; }
FDOP(fsync, SYS_fsync)
FDOP(fdatasync, SYS_fdatasync)
int ftruncate64(int fd, off_t l) {
    if (O(fd)) {
        int h = hit(0, "ftruncate", nm(fd), l);
        if (h == ERR) { errno = num; return -1; }
        int r = syscall(SYS_ftruncate, fd, l); after(h); return r;
    }
    return syscall(SYS_ftruncate, fd, l);
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }

#define POP(name, sig, path, ...) int name sig { \
    int h = NONE; \
    if (under(root, path)) { \
        h = hit(0, #name, path, 0); \
        if (h == ERR) { errno = num; return -1; } } \
    int r = syscall(__VA_ARGS__); after(h); return r; }
POP(mkdir, (const char *p, mode_t m), p, SYS_mkdir, p, m)
POP(mkdirat, (int d, const char *p, mode_t m), p, SYS_mkdirat, d, p, m)
POP(rmdir, (const char *p), p, SYS_rmdir, p)
POP(unlink, (const char *p), p, SYS_unlink, p)
POP(rename, (const char *a, const char *b), b, SYS_rename, a, b)
POP(renameat, (int d, const char *a, int e, const char *b), b, SYS_renameat2, d, a, e, b, 0)
POP(renameat2, (int d, const char *a, int e, const char *b, unsigned f), b, SYS_renameat2, d, a, e, b, f)
POP(link, (const char *a, const char *b), b, SYS_link, a, b)
POP(linkat, (int d, const char *a, int e, const char *b, int f), b, SYS_linkat, d, a, e, b, f)
POP(symlink, (const char *a, const char *b), b, SYS_symlink, a, b)
ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) {
    if (O(b)) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile64(int o, int i, off_t *x, size_t n) {
    if (O(o)) { errno = ENOSYS; return -1; }
    return syscall(SYS_sendfile, o, i, x, n);
}
