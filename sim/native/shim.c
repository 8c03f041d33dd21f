/* Interposer that hands every file and clock call made on the simulated
 * world (paths under one scratch prefix, the realtime clock) to the
 * simulator.  Inactive until sim_activate(); everything else passes
 * straight through to libc.
 *
 * While active, each intercepted call sends one request on ctl_fd and
 * blocks for the reply, so the controller decides which process runs next
 * and what happens to the call.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define PATH_LEN 400
#define MAX_FD 4096

struct request {
    uint32_t op;
    int32_t fd;
    uint64_t size;
    uint64_t offset;
    uint32_t flags;
    uint32_t seq;
    char path[PATH_LEN];
    char path2[PATH_LEN];
};

struct reply {
    uint32_t action;
    int32_t err;
    uint64_t n;
};

enum { PROCEED = 0, FAIL = 1, SHORT = 2, CRASH = 3, TORN = 4 };

enum {
    OP_OPEN = 1, OP_READ, OP_WRITE, OP_TRUNC, OP_SYNC, OP_CLOSE, OP_RENAME,
    OP_UNLINK, OP_MKDIR, OP_STAT, OP_LOCK, OP_LINK, OP_ALLOC, OP_MARK,
    OP_RMDIR, OP_COPY
};

struct clockpage {
    int64_t now_ns;     /* simulated realtime clock of this process */
    int64_t step_ns;    /* advance per reading */
    int64_t reads;
    int64_t enabled;
};

static volatile int active;
static int ctl_fd = -1;
static char prefix[PATH_LEN];
static size_t prefix_len;
static char also[PATH_LEN];   /* one more file, read by the code under test */
static unsigned char tracked[MAX_FD];
static uint32_t seq;
static volatile struct clockpage *clk;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static __thread int inside;

#define REAL(name) \
    static __typeof__(name) *real_##name; \
    if (!real_##name) real_##name = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

void sim_activate(int fd, const char *p)
{
    ctl_fd = fd;
    strncpy(prefix, p, PATH_LEN - 1);
    prefix_len = strlen(prefix);
    memset(tracked, 0, sizeof tracked);
    seq = 0;
    active = 1;
}

void sim_also(const char *p) { strncpy(also, p, PATH_LEN - 1); }

void sim_deactivate(void) { active = 0; }

void sim_clock(void *page) { clk = (volatile struct clockpage *)page; }

static void die(void)
{
    syscall(SYS_exit_group, 137);
    __builtin_unreachable();
}

static int under(const char *path, char *full)
{
    if (!active || inside || !path) return 0;
    if (path[0] == '/') {
        snprintf(full, PATH_LEN, "%s", path);
    } else {
        char cwd[PATH_LEN];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        while (path[0] == '.' && path[1] == '/') path += 2;
        if (snprintf(full, PATH_LEN, "%s/%s", cwd, path) >= PATH_LEN) return 0;
    }
    if (also[0] && strcmp(full, also) == 0) return 2;
    return strncmp(full, prefix, prefix_len) == 0 &&
           (full[prefix_len] == '/' || full[prefix_len] == 0);
}

static int under_at(int dirfd, const char *path, char *full)
{
    if (!active || inside || !path) return 0;
    if (path[0] == '/' || dirfd == AT_FDCWD) return under(path, full);
    char link[64], dir[PATH_LEN];
    snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
    ssize_t n = readlink(link, dir, sizeof dir - 1);
    if (n <= 0) return 0;
    dir[n] = 0;
    char joined[2 * PATH_LEN];
    snprintf(joined, sizeof joined, "%s/%s", dir, path);
    return under(joined, full);
}

static struct reply ask(uint32_t op, int fd, uint64_t size, uint64_t offset,
                        uint32_t flags, const char *p1, const char *p2)
{
    struct request rq;
    struct reply rp = {PROCEED, 0, 0};
    int saved = errno;
    memset(&rq, 0, sizeof rq);
    rq.op = op; rq.fd = fd; rq.size = size; rq.offset = offset;
    rq.flags = flags;
    if (p1) snprintf(rq.path, PATH_LEN, "%s", p1);
    if ((fd >= 0 && fd < MAX_FD && tracked[fd] == 2) || (p1 && also[0] && strcmp(p1, also) == 0))
        rq.flags |= 1u << 31;
    if (p2) snprintf(rq.path2, PATH_LEN, "%s", p2);
    pthread_mutex_lock(&lock);
    rq.seq = seq++;
    inside = 1;
    if (send(ctl_fd, &rq, sizeof rq, MSG_NOSIGNAL) != (ssize_t)sizeof rq) die();
    ssize_t n;
    do {
        n = recv(ctl_fd, &rp, sizeof rp, 0);
    } while (n < 0 && errno == EINTR);
    if (n != (ssize_t)sizeof rp) die();
    inside = 0;
    pthread_mutex_unlock(&lock);
    if (rp.action == CRASH) die();
    errno = saved;
    return rp;
}

/* Lets the code driving the system under test mark a point in the schedule. */
uint64_t sim_mark(const char *label, uint64_t value)
{
    if (!active) return 0;
    return ask(OP_MARK, -1, value, 0, 0, label, NULL).n;
}

#define FAILED(rp, ret) \
    do { if ((rp).action == FAIL) { errno = (rp).err; return ret; } } while (0)

static void note_fd(int fd, int on)
{
    if (fd >= 0 && fd < MAX_FD) tracked[fd] = on;
}
static int is_tracked(int fd)
{
    return active && !inside && fd >= 0 && fd < MAX_FD && tracked[fd];
}

/* ---- open ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    char full[PATH_LEN];
    int in = under_at(dirfd, path, full);
    if (in) {
        struct reply rp = ask(OP_OPEN, -1, 0, 0, flags, full, NULL);
        FAILED(rp, -1);
    }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0) note_fd(fd, in);
    return fd;
}

#define OPEN_MODE(flags, mode) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }

int open(const char *path, int flags, ...)
{ OPEN_MODE(flags, mode) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...)
{ OPEN_MODE(flags, mode) return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...)
{ OPEN_MODE(flags, mode) return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...)
{ OPEN_MODE(flags, mode) return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode)
{ return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode)
{ return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC | O_LARGEFILE, mode); }

int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags | O_LARGEFILE, 0); }
int __openat_2(int d, const char *path, int flags) { return do_open(d, path, flags, 0); }
int __openat64_2(int d, const char *path, int flags) { return do_open(d, path, flags | O_LARGEFILE, 0); }

FILE *fopen(const char *path, const char *how)
{
    REAL(fopen);
    char full[PATH_LEN];
    int in = under(path, full);
    if (in) {
        struct reply rp = ask(OP_OPEN, -1, 0, 0,
                              how[0] == 'r' && !strchr(how, '+') ? O_RDONLY : O_WRONLY,
                              full, NULL);
        FAILED(rp, NULL);
    }
    FILE *f = real_fopen(path, how);
    if (f) note_fd(fileno(f), in);
    return f;
}
FILE *fopen64(const char *path, const char *how) { return fopen(path, how); }

int close(int fd)
{
    if (is_tracked(fd)) {
        struct reply rp = ask(OP_CLOSE, fd, 0, 0, 0, NULL, NULL);
        tracked[fd] = 0;
        if (rp.action == FAIL) {
            syscall(SYS_close, fd);
            errno = rp.err;
            return -1;
        }
    }
    return syscall(SYS_close, fd);
}

/* ---- data ---- */
ssize_t read(int fd, void *buf, size_t n)
{
    if (is_tracked(fd)) {
        struct reply rp = ask(OP_READ, fd, n, 0, 0, NULL, NULL);
        FAILED(rp, -1);
        if (rp.action == SHORT && rp.n < n) n = rp.n;
    }
    return syscall(SYS_read, fd, buf, n);
}
static ssize_t do_pread(int fd, void *buf, size_t n, off_t off)
{
    if (is_tracked(fd)) {
        struct reply rp = ask(OP_READ, fd, n, off, 1, NULL, NULL);
        FAILED(rp, -1);
        if (rp.action == SHORT && rp.n < n) n = rp.n;
    }
    return syscall(SYS_pread64, fd, buf, n, off);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) { return do_pread(fd, buf, n, off); }

ssize_t __read_chk(int fd, void *buf, size_t n, size_t len) { return read(fd, buf, n); }
ssize_t __pread_chk(int fd, void *buf, size_t n, off_t off, size_t len) { return do_pread(fd, buf, n, off); }
ssize_t __pread64_chk(int fd, void *buf, size_t n, off64_t off, size_t len) { return do_pread(fd, buf, n, off); }

ssize_t write(int fd, const void *buf, size_t n)
{
    if (is_tracked(fd)) {
        struct reply rp = ask(OP_WRITE, fd, n, 0, 0, NULL, NULL);
        FAILED(rp, -1);
        if (rp.action == SHORT && rp.n < n) n = rp.n;
        if (rp.action == TORN) {
            if (rp.n) syscall(SYS_write, fd, buf, rp.n < n ? rp.n : n);
            die();
        }
    }
    return syscall(SYS_write, fd, buf, n);
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t off)
{
    if (is_tracked(fd)) {
        struct reply rp = ask(OP_WRITE, fd, n, off, 1, NULL, NULL);
        FAILED(rp, -1);
        if (rp.action == SHORT && rp.n < n) n = rp.n;
        if (rp.action == TORN) {
            if (rp.n) syscall(SYS_pwrite64, fd, buf, rp.n < n ? rp.n : n, off);
            die();
        }
    }
    return syscall(SYS_pwrite64, fd, buf, n, off);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return do_pwrite(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { return do_pwrite(fd, buf, n, off); }

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    if (is_tracked(fd)) {
        uint64_t n = 0;
        for (int i = 0; i < cnt; i++) n += iov[i].iov_len;
        struct reply rp = ask(OP_WRITE, fd, n, 0, 0, NULL, NULL);
        FAILED(rp, -1);
        if (rp.action == TORN) die();
    }
    return syscall(SYS_writev, fd, iov, cnt);
}

ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    if (is_tracked(out)) {
        struct reply rp = ask(OP_COPY, out, n, 0, 0, NULL, NULL);
        FAILED(rp, -1);
        if (rp.action == SHORT && rp.n < n) n = rp.n ? rp.n : 1;
        if (rp.action == TORN) { if (rp.n) syscall(SYS_sendfile, out, in, off, rp.n); die(); }
    }
    return syscall(SYS_sendfile, out, in, off, n);
}
ssize_t sendfile64(int out, int in, off_t *off, size_t n) { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl)
{
    if (is_tracked(out)) {
        struct reply rp = ask(OP_COPY, out, n, 0, 0, NULL, NULL);
        FAILED(rp, -1);
        if (rp.action == SHORT && rp.n < n) n = rp.n ? rp.n : 1;
        if (rp.action == TORN) { if (rp.n) syscall(SYS_copy_file_range, in, oi, out, oo, rp.n, fl); die(); }
    }
    return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
}

int ftruncate(int fd, off_t n)
{
    if (is_tracked(fd)) {
        struct reply rp = ask(OP_TRUNC, fd, n, 0, 0, NULL, NULL);
        FAILED(rp, -1);
    }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char *path, off_t n)
{
    char full[PATH_LEN];
    if (under(path, full)) {
        struct reply rp = ask(OP_TRUNC, -1, n, 0, 0, full, NULL);
        FAILED(rp, -1);
    }
    return syscall(SYS_truncate, path, n);
}
int truncate64(const char *path, off64_t n) { return truncate(path, n); }

int posix_fallocate(int fd, off_t off, off_t n)
{
    REAL(posix_fallocate);
    if (is_tracked(fd)) {
        struct reply rp = ask(OP_ALLOC, fd, n, off, 0, NULL, NULL);
        if (rp.action == FAIL) return rp.err;
    }
    return real_posix_fallocate(fd, off, n);
}

int fsync(int fd)
{
    if (is_tracked(fd)) {
        struct reply rp = ask(OP_SYNC, fd, 0, 0, 0, NULL, NULL);
        FAILED(rp, -1);
    }
    return syscall(SYS_fsync, fd);
}
int fdatasync(int fd)
{
    if (is_tracked(fd)) {
        struct reply rp = ask(OP_SYNC, fd, 0, 0, 1, NULL, NULL);
        FAILED(rp, -1);
    }
    return syscall(SYS_fdatasync, fd);
}
int flock(int fd, int how)
{
    if (is_tracked(fd)) {
        struct reply rp = ask(OP_LOCK, fd, how, 0, 0, NULL, NULL);
        FAILED(rp, -1);
    }
    return syscall(SYS_flock, fd, how);
}

/* ---- names ---- */
static int do_rename(int da, const char *a, int db, const char *b, unsigned fl)
{
    char fa[PATH_LEN], fb[PATH_LEN];
    int ia = under_at(da, a, fa), ib = under_at(db, b, fb);
    if (ia || ib) {
        struct reply rp = ask(OP_RENAME, -1, 0, 0, fl, ia ? fa : a, ib ? fb : b);
        FAILED(rp, -1);
    }
    return syscall(SYS_renameat2, da, a, db, b, fl);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int da, const char *a, int db, const char *b) { return do_rename(da, a, db, b, 0); }
int renameat2(int da, const char *a, int db, const char *b, unsigned fl) { return do_rename(da, a, db, b, fl); }

static int do_link(int da, const char *a, int db, const char *b, int fl)
{
    char fa[PATH_LEN], fb[PATH_LEN];
    int ia = under_at(da, a, fa), ib = under_at(db, b, fb);
    if (ia || ib) {
        struct reply rp = ask(OP_LINK, -1, 0, 0, fl, ia ? fa : a, ib ? fb : b);
        FAILED(rp, -1);
    }
    return syscall(SYS_linkat, da, a, db, b, fl);
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int da, const char *a, int db, const char *b, int fl) { return do_link(da, a, db, b, fl); }

static int do_unlink(int d, const char *p, int fl)
{
    char full[PATH_LEN];
    if (under_at(d, p, full)) {
        struct reply rp = ask(fl & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, -1, 0, 0, fl, full, NULL);
        FAILED(rp, -1);
    }
    return syscall(SYS_unlinkat, d, p, fl);
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p)
{
    int r = do_unlink(AT_FDCWD, p, 0);
    if (r < 0 && errno == EISDIR) r = do_unlink(AT_FDCWD, p, AT_REMOVEDIR);
    return r;
}

static int do_mkdir(int d, const char *p, mode_t m)
{
    char full[PATH_LEN];
    if (under_at(d, p, full)) {
        struct reply rp = ask(OP_MKDIR, -1, 0, 0, m, full, NULL);
        FAILED(rp, -1);
    }
    return syscall(SYS_mkdirat, d, p, m);
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }

static int do_stat(int d, const char *p, struct stat *st, int fl)
{
    char full[PATH_LEN];
    if (p && p[0] && under_at(d, p, full)) {
        struct reply rp = ask(OP_STAT, -1, 0, 0, fl, full, NULL);
        FAILED(rp, -1);
    }
    return syscall(SYS_newfstatat, d, p, st, fl);
}
int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *st, int fl) { return do_stat(d, p, st, fl); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return do_stat(d, p, (struct stat *)st, fl); }
int __xstat(int v, const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
int __xstat64(int v, const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int access(const char *p, int how)
{
    char full[PATH_LEN];
    if (under(p, full)) {
        struct reply rp = ask(OP_STAT, -1, how, 0, 0, full, NULL);
        FAILED(rp, -1);
    }
    return syscall(SYS_faccessat, AT_FDCWD, p, how);
}

/* ---- clock ---- */
static int sim_now(struct timespec *ts)
{
    if (!active || !clk || !clk->enabled) return 0;
    int64_t t = clk->now_ns;
    clk->now_ns += clk->step_ns;
    clk->reads++;
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 1;
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) && sim_now(ts)) return 0;
    return syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    if (!sim_now(&ts)) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *out)
{
    struct timespec ts;
    if (!sim_now(&ts)) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}
