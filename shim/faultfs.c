/* LD_PRELOAD seam for file system calls.
 *
 * Calls on paths below a prefix are counted; before each one the simulator
 * may inject a fault or let another simulated process go on.  Without
 * ffs_begin() every call passes straight through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN_R = 1, OPEN_W, READ, WRITE, TRUNC, SYNC, CLOSE, RENAME, UNLINK, MKDIR, OTHER };
enum { A_NONE, A_CRASH, A_TORN, A_ERR, A_STICKY, A_SHORT, A_INT };

#define MAXF 8
#define MAXFD 4096
#define MAXLOG 20000

static char prefix[PATH_MAX];
static size_t plen;
static int enabled;
static unsigned char tracked[MAXFD]; /* 1 read, 2 write */
static long n_ops, cap_ops;
static int gate_w = -1, gate_r = -1;
static unsigned char ops[MAXLOG];
static int fired_op;
static struct { long k; int action; int arg; int fired; int cls; } fault[MAXF];
static int n_fault;
static int sticky_errno, sticky_cls;

int ffs_present(void) { return 1; }
void ffs_begin(const char *p, long cap)
{
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    n_ops = 0;
    cap_ops = cap;
    n_fault = 0;
    sticky_errno = 0;
    fired_op = 0;
    enabled = 1;
}
void ffs_end(void) { enabled = 0; }
void ffs_resume(void) { enabled = 1; }
void ffs_gate(int w, int r) { gate_w = w; gate_r = r; }
/* cls 0: any operation counts; 1: only reading; 2: only writing */
void ffs_fault(long k, int action, int arg, int cls)
{
    if (n_fault < MAXF) {
        fault[n_fault].k = k;
        fault[n_fault].action = action;
        fault[n_fault].arg = arg;
        fault[n_fault].cls = cls;
        fault[n_fault].fired = 0;
        n_fault++;
    }
}
void ffs_clear(void) { n_fault = 0; sticky_errno = 0; }
long ffs_count(void) { return n_ops; }
int ffs_fired(void)
{
    int n = 0;
    for (int i = 0; i < n_fault; i++) n += fault[i].fired;
    return n;
}
int ffs_fired_op(void) { return fired_op; }
int ffs_op(long i) { return i >= 0 && i < n_ops && i < MAXLOG ? ops[i] : 0; }
int ffs_open_fds(void)
{
    int n = 0;
    for (int i = 0; i < MAXFD; i++) n += tracked[i] != 0;
    return n;
}

static int under(const char *p)
{
    return enabled && p && plen && strncmp(p, prefix, plen) == 0;
}

static int is_write(int op)
{
    return op == OPEN_W || op == WRITE || op == TRUNC || op == SYNC || op == RENAME || op == MKDIR;
}
static int is_read(int op) { return op == OPEN_R || op == READ; }

static long cnt[3];

/* Returns the action for this operation; *arg its argument. */
static int point(int op, int *arg)
{
    if (n_ops < MAXLOG) ops[n_ops] = op;
    if (n_ops == 0) cnt[0] = cnt[1] = cnt[2] = 0;
    n_ops++;
    cnt[0]++;
    if (is_read(op)) cnt[1]++;
    if (is_write(op)) cnt[2]++;
    if (cap_ops && n_ops > cap_ops) syscall(SYS_exit_group, 78);
    if (gate_w >= 0) {
        unsigned char b = op;
        if (syscall(SYS_write, gate_w, &b, 1) != 1) syscall(SYS_exit_group, 79);
        if (syscall(SYS_read, gate_r, &b, 1) != 1) syscall(SYS_exit_group, 79);
        if (b == 'K') syscall(SYS_exit_group, 77);
    }
    for (int i = 0; i < n_fault; i++) {
        int c = fault[i].cls;
        if (fault[i].fired) continue;
        if (c == 1 && !is_read(op)) continue;
        if (c == 2 && !is_write(op)) continue;
        if (cnt[c] < fault[i].k) continue;
        int a = fault[i].action;
        /* short and torn need something to shorten */
        if ((a == A_SHORT || a == A_TORN) && op != READ && op != WRITE) continue;
        if (a == A_TORN && op != WRITE) continue;
        fault[i].fired = 1;
        fired_op = op;
        if (a == A_CRASH) syscall(SYS_exit_group, 77);
        if (a == A_STICKY) { sticky_errno = fault[i].arg; sticky_cls = c; break; }
        if (a == A_INT) { raise(SIGINT); break; } /* Ctrl-C */
        *arg = fault[i].arg;
        return a;
    }
    if (sticky_errno) {
        if (sticky_cls == 0 && op != UNLINK && op != CLOSE) { *arg = sticky_errno; return A_ERR; }
        if (sticky_cls == 1 && is_read(op)) { *arg = sticky_errno; return A_ERR; }
        if (sticky_cls == 2 && is_write(op) && op != RENAME) { *arg = sticky_errno; return A_ERR; }
    }
    return A_NONE;
}

#define FAIL(a, arg) do { if ((a) == A_ERR) { errno = (arg); return -1; } } while (0)
#define REAL(name) static __typeof__(name) *real; \
    if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static void track(int fd, int flags)
{
    if (fd >= 0 && fd < MAXFD) tracked[fd] = (flags & O_ACCMODE) == O_RDONLY ? 1 : 2;
}

static int op_of(int flags)
{
    return (flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)) ? OPEN_R : OPEN_W;
}

#define OPENLIKE(name) \
int name(const char *p, int flags, ...) { \
    REAL(name); \
    mode_t m = 0; va_list ap; va_start(ap, flags); if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap); \
    if (!under(p)) return real(p, flags, m); \
    int arg = 0, a = point(op_of(flags), &arg); FAIL(a, arg); \
    int fd = real(p, flags, m); track(fd, flags); return fd; }
OPENLIKE(open)
OPENLIKE(open64)

#define OPENATLIKE(name) \
int name(int d, const char *p, int flags, ...) { \
    REAL(name); \
    mode_t m = 0; va_list ap; va_start(ap, flags); if (flags & (O_CREAT | __O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap); \
    if (!under(p)) return real(d, p, flags, m); \
    int arg = 0, a = point(op_of(flags), &arg); FAIL(a, arg); \
    int fd = real(d, p, flags, m); track(fd, flags); return fd; }
OPENATLIKE(openat)
OPENATLIKE(openat64)

#define TR(fd) (enabled && (fd) >= 0 && (fd) < MAXFD && tracked[fd])

#define IO(name, op, decl, call, scall) \
ssize_t name decl { \
    REAL(name); \
    if (!TR(fd)) return real call; \
    int arg = 0, a = point(op, &arg); FAIL(a, arg); \
    if ((a == A_SHORT || a == A_TORN) && n > 1) { \
        size_t h = arg > 0 && (size_t)arg < n ? (size_t)arg : n / 2; \
        ssize_t r = real scall; \
        if (a == A_TORN) syscall(SYS_exit_group, 77); \
        return r; } \
    if (a == A_TORN) syscall(SYS_exit_group, 77); \
    return real call; }
IO(read, READ, (int fd, void *b, size_t n), (fd, b, n), (fd, b, h))
IO(write, WRITE, (int fd, const void *b, size_t n), (fd, b, n), (fd, b, h))
IO(pread, READ, (int fd, void *b, size_t n, off_t o), (fd, b, n, o), (fd, b, h, o))
IO(pread64, READ, (int fd, void *b, size_t n, off64_t o), (fd, b, n, o), (fd, b, h, o))
IO(pwrite, WRITE, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o), (fd, b, h, o))
IO(pwrite64, WRITE, (int fd, const void *b, size_t n, off64_t o), (fd, b, n, o), (fd, b, h, o))

ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev);
    if (!TR(fd)) return real(fd, v, c);
    int arg = 0, a = point(WRITE, &arg); FAIL(a, arg);
    if (a == A_TORN) { if (real(fd, v, 1) < 0) {} syscall(SYS_exit_group, 77); }
    return real(fd, v, c);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    REAL(sendfile);
    if (!TR(o)) return real(o, i, off, n);
    int arg = 0, a = point(WRITE, &arg); FAIL(a, arg);
    if (a == A_SHORT || a == A_TORN) { ssize_t r = real(o, i, off, n / 2 + 1); if (a == A_TORN) syscall(SYS_exit_group, 77); return r; }
    return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
    REAL(sendfile64);
    if (!TR(o)) return real(o, i, off, n);
    int arg = 0, a = point(WRITE, &arg); FAIL(a, arg);
    if (a == A_SHORT || a == A_TORN) { ssize_t r = real(o, i, off, n / 2 + 1); if (a == A_TORN) syscall(SYS_exit_group, 77); return r; }
    return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f)
{
    REAL(copy_file_range);
    if (!TR(o)) return real(i, io, o, oo, n, f);
    int arg = 0, a = point(WRITE, &arg); FAIL(a, arg);
    if (a == A_SHORT || a == A_TORN) { ssize_t r = real(i, io, o, oo, n / 2 + 1, f); if (a == A_TORN) syscall(SYS_exit_group, 77); return r; }
    return real(i, io, o, oo, n, f);
}

#define FD1(name, op, decl, call) \
int name decl { REAL(name); if (!TR(fd)) return real call; \
    int arg = 0, a = point(op, &arg); FAIL(a, arg); return real call; }
FD1(ftruncate, TRUNC, (int fd, off_t n), (fd, n))
FD1(ftruncate64, TRUNC, (int fd, off64_t n), (fd, n))
FD1(fsync, SYNC, (int fd), (fd))
FD1(fdatasync, SYNC, (int fd), (fd))

int close(int fd)
{
    REAL(close);
    if (fd >= 0 && fd < MAXFD && tracked[fd]) {
        int arg = 0, a = enabled ? point(CLOSE, &arg) : A_NONE;
        tracked[fd] = 0;
        int r = real(fd);
        FAIL(a, arg); /* the descriptor is gone all the same */
        return r;
    }
    return real(fd);
}

#define PATH1(name, op, decl, call) \
int name decl { REAL(name); if (!under(p)) return real call; \
    int arg = 0, a = point(op, &arg); FAIL(a, arg); return real call; }
PATH1(unlink, UNLINK, (const char *p), (p))
PATH1(unlinkat, UNLINK, (int d, const char *p, int f), (d, p, f))
PATH1(rmdir, UNLINK, (const char *p), (p))
PATH1(mkdir, MKDIR, (const char *p, mode_t m), (p, m))
PATH1(mkdirat, MKDIR, (int d, const char *p, mode_t m), (d, p, m))
PATH1(truncate, TRUNC, (const char *p, off_t n), (p, n))
PATH1(truncate64, TRUNC, (const char *p, off64_t n), (p, n))
PATH1(chmod, OTHER, (const char *p, mode_t m), (p, m))

/* the folder is a file system of its own: nothing moves in or out in one step */
#define PATH2(name, decl, call) \
int name decl { REAL(name); if (!under(p) && !under(q)) return real call; \
    if (under(p) != under(q) && p[0] == '/' && q[0] == '/') { errno = EXDEV; return -1; } \
    int arg = 0, a = point(RENAME, &arg); FAIL(a, arg); return real call; }
PATH2(rename, (const char *p, const char *q), (p, q))
PATH2(renameat, (int d, const char *p, int e, const char *q), (d, p, e, q))
PATH2(renameat2, (int d, const char *p, int e, const char *q, unsigned f), (d, p, e, q, f))
PATH2(link, (const char *p, const char *q), (p, q))
#undef PATH2
#define PATH2(name, decl, call) \
int name decl { REAL(name); if (!under(q)) return real call; \
    int arg = 0, a = point(RENAME, &arg); FAIL(a, arg); return real call; }
PATH2(symlink, (const char *p, const char *q), (p, q))
