/* LD_PRELOAD library that watches, and on request disturbs, the file-system
 * calls a process makes on paths below $FSSHIM_DIR.
 *
 * $FSSHIM_CTL names a file of int64 fields that is mapped shared:
 *   0 count   calls counted so far            1 at      trigger at this count
 *   2 action  0 none 1 kill 2 fail 3 delay    3 err     errno for action 2
 *   4 mask    kinds that are counted          5 persist 1: from `at` on
 *   6 hits    how often the action was taken  7 delay   microseconds, at most
 *   8 permille probability of a delay         9 shortw  action 2 on a write first
 *                                                       writes half the data
 * $FSSHIM_LOG names a file to which a record per call is appended.
 * $FSSHIM_ALL=1 also logs calls on other paths (kind only, no data).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#undef open
#undef open64
#undef pread
#undef pread64
#undef pwrite
#undef pwrite64
#undef ftruncate
#undef ftruncate64
#undef fcntl
#undef fcntl64

enum { K_OPEN = 1, K_READ = 2, K_WRITE = 4, K_TRUNC = 8, K_SYNC = 16, K_UNLINK = 32,
       K_MKDIR = 64, K_LOCK = 128, K_CLOSE = 256, K_PROBE = 512, K_RENAME = 1024 };

#define MAXFD 1024
static volatile int64_t *ctl;
static int logfd = -1;
static char dir[4096];
static size_t dirlen;
static int log_all;
static char *fdpath[MAXFD];
static uint32_t rng_state;

static uint32_t rnd(void) {
    rng_state = rng_state * 1664525u + 1013904223u;
    return rng_state >> 8;
}

__attribute__((constructor)) static void init(void) {
    const char *d = getenv("FSSHIM_DIR"), *c = getenv("FSSHIM_CTL"), *l = getenv("FSSHIM_LOG");
    const char *s = getenv("FSSHIM_SEED");
    if (getenv("FSSHIM_ALL")) log_all = 1;
    rng_state = (s ? (uint32_t)atoi(s) : 1u) * 2654435761u ^ (uint32_t)getpid();
    if (d) {
        strncpy(dir, d, sizeof dir - 1);
        dirlen = strlen(dir);
    }
    if (c) {
        int fd = syscall(SYS_openat, AT_FDCWD, c, O_RDWR | O_CLOEXEC, 0);
        if (fd >= 0) {
            void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) ctl = p;
            syscall(SYS_close, fd);
        }
    }
    if (l) {
        int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (fd >= 0) {
            int hi = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
            syscall(SYS_close, fd);
            logfd = hi;
        }
    }
    unsetenv("LD_PRELOAD");
}

static int ours(const char *p) {
    return p && dirlen && strncmp(p, dir, dirlen) == 0 && (p[dirlen] == 0 || p[dirlen] == '/');
}
static const char *of_fd(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }

static void rec(int kind, const char *path, int64_t off, int64_t len, int64_t res, const void *data) {
    if (logfd < 0) return;
    int64_t h[6] = {0x4c4f4721, kind, (int64_t)strlen(path), off, data ? len : 0, res};
    struct iovec v[3] = {{h, sizeof h}, {(void *)path, strlen(path)}, {(void *)data, data ? (size_t)len : 0}};
    int e = errno;
    syscall(SYS_writev, logfd, v, 3);
    errno = e;
}

/* Counts a call that is about to happen; nonzero: it has to fail with that errno. */
static int before(int kind) {
    if (!ctl || !(ctl[4] & kind)) return 0;
    int64_t n = __sync_add_and_fetch((int64_t *)&ctl[0], 1);
    int64_t act = ctl[2];
    if (!act) return 0;
    if (act == 3) {
        if ((int64_t)(rnd() % 1000) < ctl[8] && ctl[7] > 0) {
            struct timespec t = {0, 0};
            int64_t us = rnd() % ctl[7];
            t.tv_sec = us / 1000000;
            t.tv_nsec = (us % 1000000) * 1000;
            __sync_add_and_fetch((int64_t *)&ctl[6], 1);
            int e = errno;
            syscall(SYS_nanosleep, &t, NULL);
            errno = e;
        }
        return 0;
    }
    if (n == ctl[1] || (ctl[5] && n > ctl[1])) {
        __sync_add_and_fetch((int64_t *)&ctl[6], 1);
        if (act == 1) {
            syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
            for (;;) pause();
        }
        return (int)ctl[3];
    }
    return 0;
}

static int do_open(int dfd, const char *path, int flags, int mode) {
    int mine = ours(path);
    if (mine) {
        int e = before(K_OPEN);
        if (e) { rec(K_OPEN, path, flags, 0, -e, NULL); errno = e; return -1; }
    }
    int r = syscall(SYS_openat, dfd, path, flags, mode);
    if (mine || (log_all && path)) rec(mine ? K_OPEN : K_OPEN | 0x10000, path, flags, 0, r < 0 ? -errno : r, NULL);
    if (r >= 0 && r < MAXFD) {
        free(fdpath[r]);
        fdpath[r] = mine ? strdup(path) : NULL;
    }
    return r;
}
#define OPEN_MODE(flags) \
    int mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { OPEN_MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { OPEN_MODE(flags) return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { OPEN_MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { OPEN_MODE(flags) return do_open(d, p, flags, mode); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    const char *p = of_fd(fd);
    if (p) {
        before(K_CLOSE);
        rec(K_CLOSE, p, 0, 0, 0, NULL);
        free(fdpath[fd]);
        fdpath[fd] = NULL;
    }
    return syscall(SYS_close, fd);
}

static ssize_t do_read(int fd, void *b, size_t n, int64_t off) {
    const char *p = of_fd(fd);
    if (p) {
        int e = before(K_READ);
        if (e) { rec(K_READ, p, off, n, -e, NULL); errno = e; return -1; }
    }
    ssize_t r = off < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, off);
    if (p) rec(K_READ, p, off, n, r, NULL);
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t bl) { (void)bl; return do_read(fd, b, n, o); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t bl) { (void)bl; return do_read(fd, b, n, o); }

static ssize_t do_write(int fd, const void *b, size_t n, int64_t off) {
    const char *p = of_fd(fd);
    if (p) {
        if (off < 0) off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
        int e = before(K_WRITE);
        if (e) {
            if (ctl[9] && n > 1) {
                ssize_t r = syscall(SYS_pwrite64, fd, b, n / 2, off);
                if (r > 0) rec(K_WRITE, p, off, r, r, b);
            }
            rec(K_WRITE, p, off, 0, -e, NULL);
            errno = e;
            return -1;
        }
        ssize_t r = syscall(SYS_pwrite64, fd, b, n, off);
        if (r > 0) {
            syscall(SYS_lseek, fd, off + r, SEEK_SET);
            rec(K_WRITE, p, off, r, r, b);
        }
        return r;
    }
    return off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }

static int do_trunc(int fd, int64_t len) {
    const char *p = of_fd(fd);
    if (p) {
        int e = before(K_TRUNC);
        if (e) { rec(K_TRUNC, p, len, 0, -e, NULL); errno = e; return -1; }
    }
    int r = syscall(SYS_ftruncate, fd, len);
    if (p) rec(K_TRUNC, p, len, 0, r < 0 ? -errno : r, NULL);
    return r;
}
int ftruncate(int fd, off_t l) { return do_trunc(fd, l); }
int ftruncate64(int fd, off64_t l) { return do_trunc(fd, l); }

static int do_sync(int fd, long nr) {
    const char *p = of_fd(fd);
    if (p) {
        int e = before(K_SYNC);
        if (e) { rec(K_SYNC, p, 0, 0, -e, NULL); errno = e; return -1; }
    }
    int r = syscall(nr, fd);
    if (p) rec(K_SYNC, p, 0, 0, r < 0 ? -errno : r, NULL);
    return r;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

static int path_call(int kind, const char *p, long nr, int nargs, int dfd, long extra) {
    int mine = ours(p);
    if (mine) {
        int e = before(kind);
        if (e) { rec(kind, p, 0, 0, -e, NULL); errno = e; return -1; }
    }
    int r = nargs == 2 ? syscall(nr, dfd, p) : syscall(nr, dfd, p, extra);
    if (mine || (log_all && p)) rec(mine ? kind : kind | 0x10000, p, 0, 0, r < 0 ? -errno : r, NULL);
    return r;
}
int unlink(const char *p) { return path_call(K_UNLINK, p, SYS_unlinkat, 3, AT_FDCWD, 0); }
int unlinkat(int d, const char *p, int f) { return path_call(K_UNLINK, p, SYS_unlinkat, 3, d, f); }
int rmdir(const char *p) { return path_call(K_UNLINK, p, SYS_unlinkat, 3, AT_FDCWD, AT_REMOVEDIR); }
int mkdir(const char *p, mode_t m) { return path_call(K_MKDIR, p, SYS_mkdirat, 3, AT_FDCWD, m); }
int access(const char *p, int m) { return path_call(K_PROBE, p, SYS_faccessat, 3, AT_FDCWD, m); }
int rename(const char *a, const char *b) {
    int mine = ours(a) || ours(b);
    if (mine) {
        int e = before(K_RENAME);
        if (e) { errno = e; return -1; }
    }
    int r = syscall(SYS_rename, a, b);
    if (mine) rec(K_RENAME, a, 0, strlen(b), r < 0 ? -errno : r, b);
    return r;
}

static int do_fcntl(int fd, int cmd, void *arg) {
    const char *p = of_fd(fd);
    if (p && (cmd == F_SETLK || cmd == F_SETLKW)) before(K_LOCK) ;
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD) {
        free(fdpath[r]);
        fdpath[r] = p ? strdup(p) : NULL;
    }
    return r;
}
int fcntl(int fd, int cmd, ...) {
    va_list a; va_start(a, cmd); void *arg = va_arg(a, void *); va_end(a);
    return do_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    va_list a; va_start(a, cmd); void *arg = va_arg(a, void *); va_end(a);
    return do_fcntl(fd, cmd, arg);
}
