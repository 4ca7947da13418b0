/* LD_PRELOAD library that lets time pass faster for a process.
 *
 * TIMESHIM_RATE   how many times faster (clocks and all finite time-outs)
 * TIMESHIM_START  seconds added to the date
 *
 * While the process waits for the answer to a cursor position request (from
 * the write of ESC [ 6 n to its next write), time passes at its usual pace: a
 * terminal takes real time to answer.  Processor-time clocks are left alone. */
#define _GNU_SOURCE
#include <errno.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef int64_t ns_t;
#define SEC 1000000000LL
#define SLICE (2000000LL)

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

static ns_t raw_clock(clockid_t c) {
    struct timespec t;
    raw6(SYS_clock_gettime, c, (long)&t, 0, 0, 0, 0);
    return t.tv_sec * SEC + t.tv_nsec;
}

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int ready, asking;
static int64_t rate = 1;
static ns_t base_r, base_v, start;      /* v = base_v + (r - base_r) * pace */

static void init(void) {
    if (ready)
        return;
    const char *s = getenv("TIMESHIM_RATE");
    if (s && atoll(s) > 0)
        rate = atoll(s);
    s = getenv("TIMESHIM_START");
    if (s)
        start = atoll(s) * SEC;
    base_r = base_v = raw_clock(CLOCK_MONOTONIC);
    ready = 1;
}

/* how much further than the real clock */
static ns_t now_v(void) {
    pthread_mutex_lock(&mu);
    init();
    ns_t v = base_v + (raw_clock(CLOCK_MONOTONIC) - base_r) * (asking ? 1 : rate);
    pthread_mutex_unlock(&mu);
    return v;
}

static void pace(int a) {
    pthread_mutex_lock(&mu);
    init();
    ns_t r = raw_clock(CLOCK_MONOTONIC);
    base_v += (r - base_r) * (asking ? 1 : rate);
    base_r = r;
    asking = a;
    pthread_mutex_unlock(&mu);
}

static ns_t ahead(void) {
    ns_t v = now_v();
    return v - raw_clock(CLOCK_MONOTONIC);
}

static int is_real(clockid_t c) {
    return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
}

static int is_mono(clockid_t c) {
    return c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME;
}

int clock_gettime(clockid_t c, struct timespec *t) {
    long r = raw6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
    if (r < 0) {
        errno = -r;
        return -1;
    }
    if (is_real(c) || is_mono(c)) {
        ns_t v = t->tv_sec * SEC + t->tv_nsec + ahead();
        if (is_real(c))
            v += start;
        t->tv_sec = v / SEC;
        t->tv_nsec = v % SEC;
    }
    return 0;
}

int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t)
        *t = s.tv_sec;
    return s.tv_sec;
}

static int done(long r) {
    if (r < 0) {
        errno = -r;
        return -1;
    }
    return r;
}

int poll(struct pollfd *f, nfds_t n, int ms) {
    ns_t end = now_v() + (ns_t)ms * 1000000;
    for (;;) {
        ns_t left = ms < 0 ? 0 : end - now_v();
        struct timespec s = {0, left <= 0 ? 0 : left < SLICE ? left : SLICE};
        long r = raw6(SYS_ppoll, (long)f, n, ms < 0 ? 0 : (long)&s, 0, 0, 0);
        if (r || (ms >= 0 && left <= 0))
            return done(r);
    }
}

int epoll_wait(int fd, struct epoll_event *e, int n, int ms) {
    ns_t end = now_v() + (ns_t)ms * 1000000;
    for (;;) {
        ns_t left = ms < 0 ? 0 : end - now_v();
        long r = raw6(SYS_epoll_wait, fd, (long)e, n, ms < 0 ? -1 : left <= 0 ? 0 : 2, 0, 0);
        if (r || (ms >= 0 && left <= 0))
            return done(r);
    }
}

int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    if (!t)
        return done(raw6(SYS_pselect6, n, (long)r, (long)w, (long)x, 0, 0));
    ns_t end = now_v() + t->tv_sec * SEC + t->tv_usec * 1000LL;
    fd_set z[3];
    fd_set *p[3] = {r, w, x};
    for (int i = 0; i < 3; i++)
        if (p[i])
            z[i] = *p[i];
    for (;;) {
        ns_t left = end - now_v();
        struct timespec s = {0, left <= 0 ? 0 : left < SLICE ? left : SLICE};
        for (int i = 0; i < 3; i++)
            if (p[i])
                *p[i] = z[i];
        long k = raw6(SYS_pselect6, n, (long)r, (long)w, (long)x, (long)&s, 0);
        if (k || left <= 0)
            return done(k);
    }
}

static int until(ns_t end) {
    for (;;) {
        ns_t left = end - now_v();
        if (left <= 0)
            return 0;
        left = left / (asking ? 1 : rate) + 1;
        struct timespec s = {0, left < SLICE ? left : SLICE};
        long r = raw6(SYS_nanosleep, (long)&s, 0, 0, 0, 0, 0);
        if (r == -EINTR)
            return EINTR;
    }
}

int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
    ns_t v = t->tv_sec * SEC + t->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        struct timespec s;
        clock_gettime(c, &s);
        v -= s.tv_sec * SEC + s.tv_nsec;
    }
    int r = until(now_v() + v);
    if (r && rem && !(flags & TIMER_ABSTIME))
        rem->tv_sec = rem->tv_nsec = 0;
    return r;
}

int nanosleep(const struct timespec *t, struct timespec *rem) {
    int r = clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem);
    if (r) {
        errno = r;
        return -1;
    }
    return 0;
}

int usleep(useconds_t u) {
    struct timespec s = {u / 1000000, (u % 1000000) * 1000L};
    return nanosleep(&s, 0);
}

unsigned sleep(unsigned n) {
    struct timespec s = {n, 0};
    return nanosleep(&s, 0) ? n : 0;
}

/* the locks and channels of Rust wait by futex, with a point in time */
long syscall(long n, ...) {
    va_list ap;
    long a[6];
    va_start(ap, n);
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && a[3] && ((a[1] & FUTEX_CMD_MASK) == FUTEX_WAIT_BITSET || (a[1] & FUTEX_CMD_MASK) == FUTEX_WAIT)) {
        const struct timespec *t = (const struct timespec *)a[3];
        int absolute = (a[1] & FUTEX_CMD_MASK) == FUTEX_WAIT_BITSET;
        int real = a[1] & FUTEX_CLOCK_REALTIME;
        ns_t end = t->tv_sec * SEC + t->tv_nsec;
        if (!absolute)
            end += now_v();
        for (;;) {
            struct timespec s;
            clock_gettime(real ? CLOCK_REALTIME : CLOCK_MONOTONIC, &s);
            ns_t left = end - (s.tv_sec * SEC + s.tv_nsec);
            ns_t w = left <= 0 ? 0 : left < SLICE ? left : SLICE;
            if (absolute)
                w += raw_clock(real ? CLOCK_REALTIME : CLOCK_MONOTONIC);
            struct timespec u = {w / SEC, w % SEC};
            long r = raw6(n, a[0], a[1], a[2], (long)&u, a[4], a[5]);
            if (r != -ETIMEDOUT || left <= 0)
                return done(r);
        }
    }
    long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}

ssize_t write(int fd, const void *b, size_t n) {
    int ask = memmem(b, n, "\x1b[6n", 4) != 0;
    if (ask)
        pace(1);
    else if (asking)
        pace(0);
    long r = raw6(SYS_write, fd, (long)b, n, 0, 0, 0);
    if (r < 0) {
        errno = -r;
        return -1;
    }
    return r;
}
