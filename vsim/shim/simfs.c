/* simfs: the simulated-storage seam.
 *
 * An LD_PRELOAD library that sits between the process under simulation and
 * libc.  Every file operation on a path below the simulated root is an
 * "event" with an ordinal; a fault plan (set by the simulator through
 * simfs_* calls, derived from the run's seed) decides which events fail, are
 * short, are torn, or end the process.  Anything outside the root passes
 * through untouched and uncounted, and with no root set the library does
 * nothing.  No clock or random source is read here.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXFAULT 64
#define MAXLOG 8192
#define EXPORT __attribute__((visibility("default")))

/* operation classes (keep in step with vsim/disk.py) */
enum { OP_OPEN_R = 1, OP_OPEN_W, OP_WRITE, OP_READ, OP_CLOSE, OP_TRUNC,
       OP_SYNC, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_STAT, OP_LINK, OP_OPENDIR,
       OP_LOCK, OP_CLASSES };
/* fault kinds */
enum { F_ERR = 1,      /* fail with errno=arg, operation not performed      */
       F_SHORT,        /* write/read only arg bytes (at least 1)            */
       F_CRASH_BEFORE, /* process dies before the operation                 */
       F_CRASH_AFTER,  /* process dies after the operation                  */
       F_CRASH_TORN,   /* write arg bytes, then the process dies            */
       F_EINTR,        /* fail once with EINTR                              */
       F_STICKY };     /* this and every later event of the class fail(arg) */

struct fault { int idx; int kind; int arg; int cls; int fired; };
struct ev { int cls; int res; int fault; long size; uint32_t ph; };

static char root[PATH_MAX]; static size_t rootlen; static int active;
static unsigned char tracked[MAXFD];
static uint32_t fdhash[MAXFD];
static struct fault plan[MAXFAULT]; static int nplan;
static int counter; static int clscount[OP_CLASSES];
static struct ev logbuf[MAXLOG]; static int nlog;
static long quota = -1;             /* bytes that may still be written      */
static int quota_hits;
static uint64_t dirseed; static int dirshuffle;
static int fired[16];
static uint32_t classmask = 0xffffffffu;
static int sticky_cls, sticky_errno;
typedef void (*yield_cb)(int cls);
static yield_cb on_event;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

/* ---------------------------------------------------------------- control */
EXPORT void simfs_root(const char *p) {
    active = 0; memset(tracked, 0, sizeof tracked);
    if (!p || !*p) { rootlen = 0; return; }
    strncpy(root, p, sizeof root - 1); rootlen = strlen(root); active = 1;
}
EXPORT void simfs_begin(void) {
    counter = 0; nlog = 0; memset(clscount, 0, sizeof clscount);
    sticky_cls = sticky_errno = 0;
}
EXPORT void simfs_clear_plan(void) { nplan = 0; sticky_cls = sticky_errno = 0; }
EXPORT int simfs_add_fault(int idx, int kind, int arg, int cls) {
    if (nplan >= MAXFAULT) return -1;
    plan[nplan++] = (struct fault){idx, kind, arg, cls, 0}; return 0;
}
EXPORT void simfs_quota(long q) { quota = q; quota_hits = 0; }
EXPORT int simfs_quota_hits(void) { return quota_hits; }
EXPORT int simfs_count(void) { return counter; }
EXPORT void simfs_pause(int on) { active = on ? 0 : (rootlen > 0); }
EXPORT void simfs_mask(uint32_t m) { classmask = m; }
EXPORT int simfs_log_len(void) { return nlog; }
EXPORT int simfs_log_get(int i, int *cls, int *res, int *flt, long *size,
                         uint32_t *ph) {
    if (i < 0 || i >= nlog) return -1;
    *cls = logbuf[i].cls; *res = logbuf[i].res; *flt = logbuf[i].fault;
    *size = logbuf[i].size; *ph = logbuf[i].ph; return 0;
}
EXPORT int simfs_fired(int kind) { return kind < 16 ? fired[kind] : 0; }
EXPORT void simfs_dirorder(uint64_t seed, int on) { dirseed = seed; dirshuffle = on; }
EXPORT void simfs_on_event(yield_cb cb) { on_event = cb; }

/* Process scheduler seam: at every event the process hands the baton to the
 * simulator (one byte: the operation class) and waits for it to come back. */
static int sched_out = -1, sched_in = -1;
EXPORT void simfs_sched(int out, int in) { sched_out = out; sched_in = in; }
static void sched_yield_point(int cls) {
    unsigned char b = (unsigned char)cls;
    if (syscall(SYS_write, sched_out, &b, 1) != 1) syscall(SYS_exit_group, 96);
    if (syscall(SYS_read, sched_in, &b, 1) != 1) syscall(SYS_exit_group, 96);
}

/* Progress budget: events one operation may take before it counts as stuck. */
static long budget = -1;
EXPORT void simfs_budget(long n) { budget = n; }

/* Memory seam: fail the idx-th allocation of at least min bytes once armed
 * (mode 1: that one only; mode 2: that one and all later ones). */
static int mem_mode, mem_idx, mem_seen, mem_hit; static size_t mem_min;
static pid_t mem_tid;
EXPORT void simmem_arm(int mode, int idx, long min) {
    mem_seen = mem_hit = 0; mem_idx = idx; mem_min = (size_t)min;
    mem_tid = (pid_t)syscall(SYS_gettid); mem_mode = mode;
}
EXPORT void simmem_disarm(void) { mem_mode = 0; }
EXPORT int simmem_seen(void) { return mem_seen; }
EXPORT int simmem_hits(void) { return mem_hit; }
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static int mem_fails(size_t n) {
    if (n < mem_min || (pid_t)syscall(SYS_gettid) != mem_tid) return 0;
    int i = mem_seen++;
    if (mem_mode == 3) return 0;                     /* count only */
    if (i == mem_idx || (mem_mode == 2 && i > mem_idx)) { mem_hit++; errno = ENOMEM; return 1; }
    return 0;
}
/* Content of fresh memory: 1 repeated byte, 2 random bits, 3 NaN doubles,
 * 4 huge doubles, 5 doubles in [0,1), 6 small integers. */
static int fill_mode; static uint64_t fill_state;
EXPORT void simmem_fill(int mode, uint64_t seed) { fill_state = seed * 2 + 1; fill_mode = mode; }
static uint64_t xs(uint64_t *s) {
    *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s;
}
static void *filled(void *q, size_t n) {
    if (!q) return q;
    if (fill_mode == 1) { memset(q, (int)(fill_state & 0xff), n); return q; }
    uint64_t v = 0, *w = q; size_t i, k = n / 8;
    for (i = 0; i < k; i++) {
        double d;
        switch (fill_mode) {
        case 2: v = xs(&fill_state); break;
        case 3: v = 0x7ff8000000000001ull; break;
        case 4: d = 1e30; memcpy(&v, &d, 8); break;
        case 5: d = (double)(xs(&fill_state) >> 11) / 9007199254740992.0; memcpy(&v, &d, 8); break;
        default: v = xs(&fill_state) & 0x0003000300030003ull;
        }
        w[i] = v;
    }
    for (i = k * 8; i < n; i++) ((unsigned char *)q)[i] = (unsigned char)(0x5a + i);
    return q;
}
EXPORT void *malloc(size_t n) {
    if (mem_mode && mem_fails(n)) return NULL;
    void *q = __libc_malloc(n);
    return fill_mode ? filled(q, n) : q;
}
EXPORT void *calloc(size_t a, size_t b) { return mem_mode && mem_fails(a * b) ? NULL : __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { return mem_mode && mem_fails(n) ? NULL : __libc_realloc(p, n); }

/* Clock and entropy seams: when armed, simulated time starts at a given
 * second and moves by `step` ns at every reading (after `jump` readings it
 * leaps by an hour, back or forth); entropy comes from a seeded stream. */
static int clk_on; static int64_t clk_ns, clk_step; static int clk_left; static int64_t clk_leap;
static int clk_reads, ent_reads;
EXPORT void simclock(int on, int64_t sec, int64_t step, int left, int64_t leap) {
    clk_ns = sec * 1000000000ll; clk_step = step; clk_left = left; clk_leap = leap;
    clk_reads = 0; clk_on = on;
}
EXPORT int simclock_reads(void) { return clk_reads; }
static void clk_read(struct timespec *ts) {
    clk_reads++; clk_ns += clk_step;
    if (clk_left > 0 && --clk_left == 0) clk_ns += clk_leap * 1000000000ll;
    ts->tv_sec = clk_ns / 1000000000ll; ts->tv_nsec = clk_ns % 1000000000ll;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
    if (clk_on) { clk_read(ts); return 0; }
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    return real(id, ts);
}
EXPORT time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts; (void)tz; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
static int ent_on; static uint64_t ent_state;
EXPORT void siment(int on, uint64_t seed) { ent_state = seed * 2 + 1; ent_reads = 0; ent_on = on; }
EXPORT int siment_reads(void) { return ent_reads; }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned flags) {
    if (!ent_on) return syscall(SYS_getrandom, b, n, flags);
    ent_reads++;
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)(xs(&ent_state) >> 24);
    return (ssize_t)n;
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

/* ---------------------------------------------------------------- helpers */
static uint32_t hash(const char *s) {
    uint32_t h = 2166136261u; for (; *s; s++) { h ^= (unsigned char)*s; h *= 16777619u; }
    return h;
}
/* absolute path below the root?  (no symlink resolution is needed: the
 * simulator only uses plain directories below its own root) */
static int under(int dirfd, const char *path, uint32_t *ph) {
    if (!active || !path) return 0;
    char buf[PATH_MAX * 2];
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, buf, PATH_MAX) < 0) return 0;
        } else {
            char lk[64]; snprintf(lk, sizeof lk, "/proc/self/fd/%d", dirfd);
            ssize_t n = syscall(SYS_readlink, lk, buf, PATH_MAX - 1);
            if (n < 0) return 0;
            buf[n] = 0;
        }
        size_t n = strlen(buf);
        snprintf(buf + n, sizeof buf - n, "/%s", path);
        path = buf;
    }
    if (strncmp(path, root, rootlen) || (path[rootlen] && path[rootlen] != '/'))
        return 0;
    if (ph) *ph = hash(path + rootlen);
    return 1;
}
static int fdin(int fd) { return active && fd >= 0 && fd < MAXFD && tracked[fd]; }

static void die(void) { syscall(SYS_exit_group, 137); }

/* decide the fate of the next event; returns fault kind or 0; *arg set */
static int next_event(int cls, long size, uint32_t ph, int *arg, struct ev **e) {
    static struct ev scratch;
    *e = nlog < MAXLOG ? &logbuf[nlog++] : &scratch;
    **e = (struct ev){cls, 0, 0, size, ph};
    if (!(classmask & (1u << cls))) return 0;
    int idx = counter++; clscount[cls]++;
    if (on_event) on_event(cls);
    if (sched_out >= 0) sched_yield_point(cls);
    if (budget >= 0 && counter > budget) syscall(SYS_exit_group, 98);
    if (sticky_errno && sticky_cls == cls) { *arg = sticky_errno; (*e)->fault = F_ERR; return F_ERR; }
    for (int i = 0; i < nplan; i++) {
        struct fault *f = &plan[i];
        if (f->fired) continue;
        int hit = f->cls ? (f->cls == cls && f->idx == clscount[cls] - 1)
                         : f->idx == idx;
        if (!hit) continue;
        f->fired = 1; fired[f->kind]++; *arg = f->arg; (*e)->fault = f->kind;
        int k = f->kind;
        if (k == F_CRASH_BEFORE) die();
        if (k == F_EINTR) { *arg = EINTR; k = F_ERR; }
        if (k == F_STICKY) { sticky_cls = cls; sticky_errno = f->arg; k = F_ERR; }
        return k;
    }
    return 0;
}
#define FIN(e, r) do { int _se = errno; (e)->res = (r) < 0 ? -_se : 0; errno = _se; } while (0)

/* simple path operation template */
#define PATHOP(cls, dirfd, path, call) do { \
    uint32_t ph; if (!under(dirfd, path, &ph)) return call; \
    int arg = 0; struct ev *e; int k = next_event(cls, 0, ph, &arg, &e); \
    if (k == F_ERR) { e->res = -arg; errno = arg; return -1; } \
    int r = call; FIN(e, r); if (k == F_CRASH_AFTER || k == F_CRASH_TORN) die(); return r; } while (0)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    static int (*real_openat)(int, const char *, int, ...);
    if (!real_openat) real_openat = dlsym(RTLD_NEXT, "openat");
    uint32_t ph = 0;
    if (!under(dirfd, path, &ph)) {
        int fd = real_openat(dirfd, path, flags, mode);
        if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
        return fd;
    }
    int cls = (flags & O_DIRECTORY) ? OP_OPENDIR :
              ((flags & O_ACCMODE) == O_RDONLY ? OP_OPEN_R : OP_OPEN_W);
    int arg = 0; struct ev *e; int k = next_event(cls, 0, ph, &arg, &e);
    if (k == F_ERR) { e->res = -arg; errno = arg; return -1; }
    int fd = real_openat(dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) { tracked[fd] = (flags & O_DIRECTORY) ? 0 : 1; fdhash[fd] = ph; }
    FIN(e, fd);
    if (k == F_CRASH_AFTER || k == F_CRASH_TORN) die();
    return fd;
}
#define GETMODE() mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { \
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open(const char *p, int flags, ...) { GETMODE(); return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { GETMODE(); return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int openat(int d, const char *p, int flags, ...) { GETMODE(); return do_open(d, p, flags, mode); }
EXPORT int openat64(int d, const char *p, int flags, ...) { GETMODE(); return do_open(d, p, flags, mode); }
EXPORT int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
EXPORT int creat64(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

/* ------------------------------------------------------------------ write */
static ssize_t raw_write(int fd, const void *b, size_t n, off_t off, int pos) {
    return pos ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
}
static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int pos) {
    if (!fdin(fd)) return raw_write(fd, b, n, off, pos);
    int arg = 0; struct ev *e;
    int k = next_event(OP_WRITE, (long)n, fdhash[fd], &arg, &e);
    if (k == F_ERR) { e->res = -arg; errno = arg; return -1; }
    size_t m = n;
    if (k == F_SHORT || k == F_CRASH_TORN) { if ((size_t)arg < m) m = arg > 0 ? arg : (k == F_SHORT ? 1 : 0); }
    if (quota >= 0) {
        if (quota == 0 && m) { quota_hits++; e->res = -ENOSPC; errno = ENOSPC; return -1; }
        if ((long)m > quota) { m = quota; quota_hits++; }
    }
    ssize_t r = m || !n ? raw_write(fd, b, m, off, pos) : 0;
    if (quota >= 0 && r > 0) quota -= r;
    FIN(e, r);
    if (k == F_CRASH_TORN || k == F_CRASH_AFTER) die();
    return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!fdin(fd)) return syscall(SYS_writev, fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
        if (r < 0) return tot ? tot : -1;
        tot += r; if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}
/* kernel-side copies would bypass the write seam: report "not supported" so
 * that callers take their read/write path */
EXPORT ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    if (fdin(a) || fdin(b)) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
}
EXPORT ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    if (fdin(o) || fdin(i)) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, o, i, off, n);
}
EXPORT ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (fdin(o) || fdin(i)) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, o, i, off, n);
}

/* ------------------------------------------------------------------- read */
static ssize_t do_read(int fd, void *b, size_t n, off_t off, int pos) {
    if (!fdin(fd)) return pos ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
    int arg = 0; struct ev *e;
    int k = next_event(OP_READ, (long)n, fdhash[fd], &arg, &e);
    if (k == F_ERR) { e->res = -arg; errno = arg; return -1; }
    if (k == F_SHORT && arg > 0 && (size_t)arg < n) n = arg;
    ssize_t r = pos ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
    FIN(e, r);
    if (k == F_CRASH_AFTER || k == F_CRASH_TORN) die();
    return r;
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }

/* --------------------------------------------------- close, truncate, sync */
EXPORT int close(int fd) {
    if (!fdin(fd)) return syscall(SYS_close, fd);
    int arg = 0; struct ev *e; int k = next_event(OP_CLOSE, 0, fdhash[fd], &arg, &e);
    tracked[fd] = 0;
    int r = syscall(SYS_close, fd);          /* the descriptor is always released */
    if (k == F_ERR) { e->res = -arg; errno = arg; return -1; }
    FIN(e, r);
    if (k == F_CRASH_AFTER || k == F_CRASH_TORN) die();
    return r;
}
#define FDOP(cls, fd, size, call) do { \
    if (!fdin(fd)) return call; \
    int arg = 0; struct ev *e; int k = next_event(cls, size, fdhash[fd], &arg, &e); \
    if (k == F_ERR) { e->res = -arg; errno = arg; return -1; } \
    int r = call; FIN(e, r); if (k == F_CRASH_AFTER || k == F_CRASH_TORN) die(); return r; } while (0)
EXPORT int ftruncate(int fd, off_t n) { FDOP(OP_TRUNC, fd, n, (int)syscall(SYS_ftruncate, fd, n)); }
EXPORT int ftruncate64(int fd, off64_t n) { FDOP(OP_TRUNC, fd, n, (int)syscall(SYS_ftruncate, fd, n)); }
EXPORT int fsync(int fd) { FDOP(OP_SYNC, fd, 0, (int)syscall(SYS_fsync, fd)); }
EXPORT int fdatasync(int fd) { FDOP(OP_SYNC, fd, 0, (int)syscall(SYS_fdatasync, fd)); }
EXPORT int flock(int fd, int op) { FDOP(OP_LOCK, fd, 0, (int)syscall(SYS_flock, fd, op)); }
EXPORT int dup2(int a, int b) {
    int t = fdin(a); int r = syscall(SYS_dup2, a, b);
    if (r >= 0 && r < MAXFD) { tracked[r] = t; if (a >= 0 && a < MAXFD) fdhash[r] = fdhash[a]; }
    return r;
}
EXPORT int dup(int a) {
    int t = fdin(a); int r = syscall(SYS_dup, a);
    if (r >= 0 && r < MAXFD) { tracked[r] = t; if (a >= 0 && a < MAXFD) fdhash[r] = fdhash[a]; }
    return r;
}

/* -------------------------------------------------------------- name space */
EXPORT int rename(const char *a, const char *b) { PATHOP(OP_RENAME, AT_FDCWD, b, (int)syscall(SYS_rename, a, b)); }
EXPORT int renameat(int ad, const char *a, int bd, const char *b) { PATHOP(OP_RENAME, bd, b, (int)syscall(SYS_renameat, ad, a, bd, b)); }
EXPORT int renameat2(int ad, const char *a, int bd, const char *b, unsigned f) { PATHOP(OP_RENAME, bd, b, (int)syscall(SYS_renameat2, ad, a, bd, b, f)); }
EXPORT int unlink(const char *a) { PATHOP(OP_UNLINK, AT_FDCWD, a, (int)syscall(SYS_unlink, a)); }
EXPORT int unlinkat(int d, const char *a, int f) { PATHOP(OP_UNLINK, d, a, (int)syscall(SYS_unlinkat, d, a, f)); }
EXPORT int rmdir(const char *a) { PATHOP(OP_UNLINK, AT_FDCWD, a, (int)syscall(SYS_rmdir, a)); }
EXPORT int remove(const char *a) {
    struct stat st; if (syscall(SYS_lstat, a, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(a);
    return unlink(a);
}
EXPORT int link(const char *a, const char *b) { PATHOP(OP_LINK, AT_FDCWD, b, (int)syscall(SYS_link, a, b)); }
EXPORT int linkat(int ad, const char *a, int bd, const char *b, int f) { PATHOP(OP_LINK, bd, b, (int)syscall(SYS_linkat, ad, a, bd, b, f)); }
EXPORT int symlink(const char *a, const char *b) { PATHOP(OP_LINK, AT_FDCWD, b, (int)syscall(SYS_symlink, a, b)); }
EXPORT int mkdir(const char *a, mode_t m) { PATHOP(OP_MKDIR, AT_FDCWD, a, (int)syscall(SYS_mkdir, a, m)); }
EXPORT int mkdirat(int d, const char *a, mode_t m) { PATHOP(OP_MKDIR, d, a, (int)syscall(SYS_mkdirat, d, a, m)); }
EXPORT int truncate(const char *a, off_t n) { PATHOP(OP_TRUNC, AT_FDCWD, a, (int)syscall(SYS_truncate, a, n)); }
EXPORT int truncate64(const char *a, off64_t n) { PATHOP(OP_TRUNC, AT_FDCWD, a, (int)syscall(SYS_truncate, a, n)); }
EXPORT int stat(const char *a, struct stat *s) { PATHOP(OP_STAT, AT_FDCWD, a, (int)syscall(SYS_stat, a, s)); }
EXPORT int stat64(const char *a, struct stat64 *s) { PATHOP(OP_STAT, AT_FDCWD, a, (int)syscall(SYS_stat, a, s)); }
EXPORT int lstat(const char *a, struct stat *s) { PATHOP(OP_STAT, AT_FDCWD, a, (int)syscall(SYS_lstat, a, s)); }
EXPORT int lstat64(const char *a, struct stat64 *s) { PATHOP(OP_STAT, AT_FDCWD, a, (int)syscall(SYS_lstat, a, s)); }
EXPORT int fstatat(int d, const char *a, struct stat *s, int f) { PATHOP(OP_STAT, d, a, (int)syscall(SYS_newfstatat, d, a, s, f)); }
EXPORT int fstatat64(int d, const char *a, struct stat64 *s, int f) { PATHOP(OP_STAT, d, a, (int)syscall(SYS_newfstatat, d, a, s, f)); }
EXPORT int access(const char *a, int m) { PATHOP(OP_STAT, AT_FDCWD, a, (int)syscall(SYS_access, a, m)); }
EXPORT int faccessat(int d, const char *a, int m, int f) { PATHOP(OP_STAT, d, a, (int)syscall(SYS_faccessat2, d, a, m, f)); }

/* ------------------------------------------------- directory enumeration */
#define MAXDIRS 32
struct dirperm { DIR *d; int n, pos; struct dirent64 **e; };
static struct dirperm dp[MAXDIRS];
static uint64_t sm(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static int cmpent(const void *a, const void *b) {
    return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name); }
static void dir_register(DIR *d) {
    if (!d || !dirshuffle) return;
    static struct dirent64 *(*rd)(DIR *); if (!rd) rd = dlsym(RTLD_NEXT, "readdir64");
    for (int i = 0; i < MAXDIRS; i++) if (!dp[i].d) {
        struct dirperm *p = &dp[i]; p->d = d; p->n = p->pos = 0; p->e = NULL;
        struct dirent64 *x;
        while ((x = rd(d))) {
            p->e = realloc(p->e, sizeof(*p->e) * (p->n + 1));
            p->e[p->n] = malloc(sizeof(struct dirent64));
            memcpy(p->e[p->n++], x, sizeof(struct dirent64));
        }
        if (p->n) {
            qsort(p->e, p->n, sizeof *p->e, cmpent);
            uint64_t s = dirseed;
            for (int j = p->n - 1; j > 0; j--) { int k = sm(&s) % (j + 1);
                struct dirent64 *t = p->e[j]; p->e[j] = p->e[k]; p->e[k] = t; }
        }
        fired[15]++;
        return;
    }
}
static struct dirperm *dir_find(DIR *d) { for (int i = 0; i < MAXDIRS; i++) if (dp[i].d == d && d) return &dp[i]; return NULL; }
EXPORT DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    uint32_t ph; if (!under(AT_FDCWD, p, &ph)) return real_opendir(p);
    int arg = 0; struct ev *e; int k = next_event(OP_OPENDIR, 0, ph, &arg, &e);
    if (k == F_ERR) { e->res = -arg; errno = arg; return NULL; }
    DIR *d = real_opendir(p); dir_register(d); return d;
}
EXPORT DIR *fdopendir(int fd) {
    REAL(DIR *, fdopendir, int);
    DIR *d = real_fdopendir(fd);
    if (d && active && dirshuffle) {
        char lk[64], buf[PATH_MAX]; snprintf(lk, sizeof lk, "/proc/self/fd/%d", fd);
        ssize_t n = syscall(SYS_readlink, lk, buf, sizeof buf - 1);
        if (n > 0) { buf[n] = 0; if (under(AT_FDCWD, buf, NULL)) dir_register(d); }
    }
    return d;
}
EXPORT struct dirent *readdir(DIR *d) {
    REAL(struct dirent *, readdir, DIR *);
    struct dirperm *p = dir_find(d); if (!p) return real_readdir(d);
    return p->pos < p->n ? (struct dirent *)p->e[p->pos++] : NULL;
}
EXPORT struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *);
    struct dirperm *p = dir_find(d); if (!p) return real_readdir64(d);
    return p->pos < p->n ? p->e[p->pos++] : NULL;
}
EXPORT void rewinddir(DIR *d) {
    REAL(void, rewinddir, DIR *);
    struct dirperm *p = dir_find(d); if (p) { p->pos = 0; return; }
    real_rewinddir(d);
}
EXPORT int closedir(DIR *d) {
    REAL(int, closedir, DIR *);
    struct dirperm *p = dir_find(d);
    if (p) { for (int i = 0; i < p->n; i++) free(p->e[i]); free(p->e); p->d = NULL; }
    return real_closedir(d);
}
