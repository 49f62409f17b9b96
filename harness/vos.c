#define _GNU_SOURCE
#include "vos.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/timerfd.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

void vt_fail (const char *fmt, ...) __attribute__ ((noreturn));

const char *vos_call_name[VC_MAX] = {
#define X(n) #n,
    VOS_CALLS (X)
#undef X
};

static pthread_t main_thread;
static int virt;
static uint64_t now_ns;
uint32_t vos_clock_step;
uint64_t vos_polls, vos_poll_limit, vos_idles;
int (*vos_env) (int);
uint64_t (*vos_env_next) (void);
void (*vos_deadlock) (void);
int vos_grace_ms;
int (*vos_external) (void);
int (*vos_intr) (void);
void (*vos_other) (int, int, long);
int (*vos_fault_other) (int, int);
int (*vos_fault) (int, int);
size_t (*vos_short) (int, int, size_t);
void (*vos_after) (int, int, long, int);
uint64_t vos_count[VC_MAX];
int (*vos_getaddrinfo) (const char *, const char *, const struct addrinfo *,
                        struct addrinfo **);
int (*vos_getnameinfo) (const struct sockaddr *, unsigned, char *, unsigned,
                        char *, unsigned, int);
int vos_op;
void *(*vos_mmap) (size_t);
vos_res vos_live;
int vos_track;
size_t vos_alloc_max;

static int
on_main (void)
{
    return pthread_equal (pthread_self (), main_thread);
}

static void
count (int call)
{
    if (on_main ())
        vos_count[call]++;
}

static int
fault (int call, int fd)
{
    if (on_main ())
        return vos_fault ? vos_fault (call, fd) : 0;
    return vos_fault_other ? vos_fault_other (call, fd) : 0;
}

/* ---------- virtual timers ---------- */
#define MAXT 64
static struct {
    int fd;
    int armed;
    uint64_t expire, interval;
    uint64_t off; /* of the timer's clock against the virtual one */
} vt[MAXT];
static int nvt;

void
vos_init (void)
{
    main_thread = pthread_self ();
}

static struct reg {
    int used, epfd;
    uint32_t events;
    epoll_data_t data;
} regs[4096];
static int reg_hi;

void
vos_reset (void)
{
    int i;

    main_thread = pthread_self ();
    virt = 0;
    now_ns = 0;
    vos_clock_step = 0;
    vos_polls = vos_poll_limit = vos_idles = 0;
    vos_env = NULL;
    vos_env_next = NULL;
    vos_deadlock = NULL;
    vos_grace_ms = 0;
    vos_external = NULL;
    vos_intr = NULL;
    vos_other = NULL;
    vos_fault_other = NULL;
    vos_fault = NULL;
    vos_short = NULL;
    vos_after = NULL;
    vos_mmap = NULL;
    vos_getaddrinfo = NULL;
    vos_getnameinfo = NULL;
    memset (vos_count, 0, sizeof (vos_count));
    for (i = 0; i < nvt; i++)
        vt[i].armed = 0;
    nvt = 0;
    for (i = 0; i < reg_hi; i++)
        regs[i].used = 0;
    reg_hi = 0;
    vos_track = 1;
    vos_alloc_max = (size_t)1 << 40;
}

void
vos_virtual (int on)
{
    virt = on;
}

void
vos_set_time (uint64_t ns)
{
    now_ns = ns;
}

uint64_t
vos_now (void)
{
    return now_ns;
}

static void
fire_due (void)
{
    int i;

    for (i = 0; i < nvt; i++) {
        if (vt[i].armed && vt[i].expire <= now_ns) {
            uint64_t one = 1;
            if (write (vt[i].fd, &one, 8) < 0) {
            }
            if (vt[i].interval) {
                while (vt[i].expire <= now_ns)
                    vt[i].expire += vt[i].interval;
            } else {
                vt[i].armed = 0;
            }
        }
    }
}

void
vos_advance (uint64_t ns)
{
    now_ns += ns;
    if (virt)
        fire_due ();
}

#define PRE(call, fd)                                                          \
    do {                                                                       \
        count (VC_##call);                                                \
        if (vos_fault || vos_fault_other) {                                    \
            int e_ = fault (VC_##call, fd);                                    \
            if (e_) {                                                          \
                errno = e_;                                                    \
                return -1;                                                     \
            }                                                                  \
        }                                                                      \
    } while (0)

#define AFTER(call, fd, ret)                                                   \
    do {                                                                       \
        if (vos_after && on_main ()) {                                         \
            int e_ = errno;                                                    \
            vos_after (VC_##call, fd, (long)(ret), e_);                        \
            errno = e_;                                                        \
        } else if (vos_other && !on_main ()) {                                 \
            int e_ = errno;                                                    \
            vos_other (VC_##call, fd, (long)(ret));                            \
            errno = e_;                                                        \
        }                                                                      \
    } while (0)

static size_t
limit (int call, int fd, size_t want)
{
    if (vos_short && on_main () && want) {
        size_t l = vos_short (call, fd, want);
        return l < want ? l : want;
    }
    return want;
}

/* ---------- block tracking: open addressing hash ---------- */
#define HB (1 << 17)
static struct blk {
    void *p;
    size_t n;
} blks[HB];
static struct blk maps[8192];
static pthread_mutex_t track_lock = PTHREAD_MUTEX_INITIALIZER;

static unsigned
hp (const void *p)
{
    return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & (HB - 1);
}

static void
blk_add (void *p, size_t n)
{
    unsigned i;

    if (!p || !vos_track)
        return;
    pthread_mutex_lock (&track_lock);
    for (i = hp (p); blks[i].p && blks[i].p != (void *)1; i = (i + 1) & (HB - 1))
        ;
    blks[i].p = p;
    blks[i].n = n;
    vos_live.blocks++;
    vos_live.bytes += n;
    pthread_mutex_unlock (&track_lock);
}

/* contents of fresh and dead memory are not to be relied on */
static void
junk (void *p, size_t n, int c)
{
    if (p)
        memset (p, c, n < 4096 ? n : 4096);
}

static int
blk_del (void *p, size_t *n)
{
    unsigned i;
    int found = 0;

    *n = 0;

    if (!p || !vos_track)
        return 1;
    pthread_mutex_lock (&track_lock);
    for (i = hp (p); blks[i].p; i = (i + 1) & (HB - 1)) {
        if (blks[i].p == p) {
            unsigned j = (i + 1) & (HB - 1);
            vos_live.blocks--;
            vos_live.bytes -= blks[i].n;
            *n = blks[i].n;
            blks[i].p = blks[j].p ? (void *)1 : NULL;
            found = 1;
            break;
        }
    }
    pthread_mutex_unlock (&track_lock);
    return found;
}

int
vos_find_block (const void *p, void **base, size_t *size)
{
    int i;

    for (i = 0; i < HB; i++) {
        if ((uintptr_t)blks[i].p > 1 && (const char *)p >= (char *)blks[i].p &&
            (const char *)p < (char *)blks[i].p + blks[i].n) {
            if (base)
                *base = blks[i].p;
            if (size)
                *size = blks[i].n;
            return 1;
        }
    }
    return 0;
}

void
vos_each_block (void (*fn) (void *, size_t, void *), void *d)
{
    int i;

    for (i = 0; i < HB; i++)
        if ((uintptr_t)blks[i].p > 1)
            fn (blks[i].p, blks[i].n, d);
}

static int map_hi;

int
vos_find_map (const void *p, void **base, size_t *size)
{
    int i;

    for (i = 0; i < map_hi; i++) {
        if (maps[i].p && (const char *)p >= (char *)maps[i].p &&
            (const char *)p < (char *)maps[i].p + maps[i].n) {
            if (base)
                *base = maps[i].p;
            if (size)
                *size = maps[i].n;
            return 1;
        }
    }
    return 0;
}

int
vos_overlaps (const void *p, size_t n)
{
    int i;
    const char *a = p, *b = a + n;

    for (i = 0; i < HB; i++) {
        if ((uintptr_t)blks[i].p > 1) {
            const char *x = blks[i].p, *y = x + blks[i].n;
            if (a < y && x < b && !(a >= x && b <= y))
                return 1;
        }
    }
    for (i = 0; i < map_hi; i++) {
        if (maps[i].p) {
            const char *x = maps[i].p, *y = x + maps[i].n;
            if (a < y && x < b && !(a >= x && b <= y))
                return 1;
        }
    }
    return 0;
}

#define MEMPRE(call)                                                           \
    do {                                                                       \
        count (VC_##call);                                                \
        if (vos_fault || vos_fault_other) {                                    \
            int e_ = fault (VC_##call, -1);                                    \
            if (e_) {                                                          \
                errno = e_;                                                    \
                return NULL;                                                   \
            }                                                                  \
        }                                                                      \
    } while (0)

void *
vw_malloc (size_t n)
{
    void *p;

    MEMPRE (malloc);
    if (n > vos_alloc_max) {
        errno = ENOMEM;
        return NULL;
    }
    p = malloc (n);
    junk (p, n, 0xa5);
    blk_add (p, n);
    return p;
}

void *
vw_calloc (size_t a, size_t b)
{
    void *p;
    size_t t;

    MEMPRE (calloc);
    if (__builtin_mul_overflow (a, b, &t) || t > vos_alloc_max) {
        errno = ENOMEM;
        return NULL;
    }
    p = calloc (a, b);
    blk_add (p, a * b);
    return p;
}

void *
vw_realloc (void *q, size_t n)
{
    void *p;
    size_t o = 0;

    MEMPRE (realloc);
    if (n > vos_alloc_max) {
        errno = ENOMEM;
        return NULL;
    }
    if (q && !blk_del (q, &o))
        vt_fail ("memory: realloc of a pointer that is not a live block");
    p = realloc (q, n);
    if (p) {
        if (vos_track && n > o)
            junk ((char *)p + o, n - o, 0xa5);
        blk_add (p, n);
    } else if (q && n) {
        blk_add (q, o);
    }
    return p;
}

void
vw_free (void *p)
{
    size_t n;

    count (VC_free);
    if (p && !blk_del (p, &n))
        vt_fail ("memory: free of a pointer that is not a live block");
    if (vos_track)
        junk (p, n, 0xdd);
    free (p);
}

void *
vw_mmap (void *addr, size_t n, int prot, int flags, int fd, off_t off)
{
    void *p;
    int i;

    count (VC_mmap);
    if (vos_fault || vos_fault_other) {
        int e = fault (VC_mmap, -1);
        if (e) {
            errno = e;
            return MAP_FAILED;
        }
    }
    p = MAP_FAILED;
    if (vos_mmap && !addr && fd == -1)
        p = vos_mmap (n);
    if (p == MAP_FAILED)
        p = mmap (addr, n, prot, flags, fd, off);
    if (p != MAP_FAILED && vos_track) {
        pthread_mutex_lock (&track_lock);
        for (i = 0; i < 8192 && maps[i].p; i++)
            ;
        if (i < 8192) {
            maps[i].p = p;
            maps[i].n = (n + 4095) & ~(size_t)4095;
            if (i >= map_hi)
                map_hi = i + 1;
        }
        vos_live.maps++;
        vos_live.map_bytes += (n + 4095) & ~(size_t)4095;
        pthread_mutex_unlock (&track_lock);
    }
    return p;
}

int
vw_munmap (void *p, size_t n)
{
    int i, found = 0;
    size_t page = 4096;

    count (VC_munmap);
    n = (n + page - 1) & ~(page - 1);
    if (vos_track) {
        pthread_mutex_lock (&track_lock);
        for (i = 0; i < map_hi; i++) {
            if (maps[i].p == p) {
                found = 1;
                if (maps[i].n == n) {
                    maps[i].p = NULL;
                    vos_live.maps--;
                } else if (n < maps[i].n) {
                    maps[i].p = (char *)p + n;
                    maps[i].n -= n;
                }
                vos_live.map_bytes -= n;
                break;
            }
            /* partial unmapping from the middle or end */
            if (maps[i].p && (char *)p > (char *)maps[i].p &&
                (char *)p < (char *)maps[i].p + maps[i].n) {
                found = 1;
                vos_live.map_bytes -= n;
                break;
            }
        }
        pthread_mutex_unlock (&track_lock);
        if (!found)
            vt_fail ("memory: unmapping of an address that is not mapped");
    }
    return munmap (p, n);
}

int
vw_mprotect (void *p, size_t n, int prot)
{
    PRE (mprotect, -1);
    return mprotect (p, n, prot);
}

/* ---------- clock, timers, event loop ---------- */
static uint64_t
clock_off (int id)
{
    switch (id) {
    case CLOCK_REALTIME:
    case CLOCK_REALTIME_COARSE:
    case CLOCK_TAI:
        return 1700000000123456789ull;
    case CLOCK_PROCESS_CPUTIME_ID:
    case CLOCK_THREAD_CPUTIME_ID:
        return -(now_ns / 2);
    }
    return 0;
}

int
vw_clock_gettime (clockid_t id, struct timespec *ts)
{
    count (VC_clock_gettime);
    if (!virt || !on_main ())
        return clock_gettime (id, ts);
    {
        uint64_t t = now_ns + clock_off (id);
        ts->tv_sec = t / 1000000000u;
        ts->tv_nsec = t % 1000000000u;
    }
    if (vos_clock_step)
        vos_advance (vos_clock_step);
    return 0;
}

int
vw_timerfd_create (int clk, int flags)
{
    int fd;

    PRE (timerfd_create, -1);
    if (!virt || !on_main ())
        return timerfd_create (clk, flags);
    fd = eventfd (0, ((flags & TFD_NONBLOCK) ? EFD_NONBLOCK : 0) |
                         ((flags & TFD_CLOEXEC) ? EFD_CLOEXEC : 0));
    if (fd >= 0) {
        int i;
        for (i = 0; i < nvt; i++)
            if (vt[i].fd < 0)
                break;
        if (i == nvt) {
            if (nvt == MAXT)
                abort ();
            nvt++;
        }
        vt[i].fd = fd;
        vt[i].armed = 0;
        vt[i].interval = 0;
        vt[i].off = clock_off (clk);
    }
    return fd;
}

int
vw_timerfd_settime (int fd, int flags, const struct itimerspec *nv,
                    struct itimerspec *ov)
{
    int i;

    PRE (timerfd_settime, fd);
    for (i = 0; i < nvt; i++)
        if (vt[i].fd == fd)
            break;
    if (i == nvt || !on_main ())
        return timerfd_settime (fd, flags, nv, ov);
    if (nv->it_value.tv_nsec < 0 || nv->it_value.tv_nsec >= 1000000000L ||
        nv->it_value.tv_sec < 0 || nv->it_interval.tv_nsec < 0 ||
        nv->it_interval.tv_nsec >= 1000000000L || nv->it_interval.tv_sec < 0) {
        errno = EINVAL;
        return -1;
    }
    if (ov) {
        memset (ov, 0, sizeof (*ov));
        if (vt[i].armed && vt[i].expire > now_ns) {
            ov->it_value.tv_sec = (vt[i].expire - now_ns) / 1000000000u;
            ov->it_value.tv_nsec = (vt[i].expire - now_ns) % 1000000000u;
        }
    }
    {
        uint64_t v;
        int fl = fcntl (fd, F_GETFL);
        struct pollfd p = { fd, POLLIN, 0 };
        (void)fl;
        if (poll (&p, 1, 0) > 0 && read (fd, &v, 8) < 0) {
        }
    }
    if (nv->it_value.tv_sec == 0 && nv->it_value.tv_nsec == 0) {
        vt[i].armed = 0;
        return 0;
    }
    vt[i].expire =
        (uint64_t)nv->it_value.tv_sec * 1000000000u + nv->it_value.tv_nsec;
    if (!(flags & TFD_TIMER_ABSTIME))
        vt[i].expire += now_ns;
    else
        vt[i].expire = vt[i].expire > vt[i].off ? vt[i].expire - vt[i].off : 0;
    vt[i].interval = (uint64_t)nv->it_interval.tv_sec * 1000000000u +
                     nv->it_interval.tv_nsec;
    vt[i].armed = 1;
    fire_due ();
    return 0;
}

int
vw_epoll_create (int n)
{
    PRE (epoll_create, -1);
    return epoll_create (n);
}

int
vw_epoll_create1 (int f)
{
    PRE (epoll_create, -1);
    return epoll_create1 (f);
}

int
vw_epoll_ctl (int ep, int op, int fd, struct epoll_event *ev)
{
    int r;

    if (on_main ())
        vos_op = op;
    PRE (epoll_ctl, fd);
    r = epoll_ctl (ep, op, fd, ev);
    if (r == 0 && on_main () && fd >= 0 && fd < 4096) {
        if (op == EPOLL_CTL_DEL) {
            regs[fd].used = 0;
        } else {
            regs[fd].used = 1;
            regs[fd].epfd = ep;
            regs[fd].events = ev->events;
            regs[fd].data = ev->data;
            if (fd >= reg_hi)
                reg_hi = fd + 1;
        }
    }
    AFTER (epoll_ctl, fd, r);
    return r;
}

int
vos_registered (int fd, uint32_t *events)
{
    if (fd < 0 || fd >= 4096 || !regs[fd].used)
        return 0;
    if (events)
        *events = regs[fd].events;
    return 1;
}

int
vos_rearm (int fd)
{
    struct epoll_event ev;

    if (fd < 0 || fd >= 4096 || !regs[fd].used)
        return 0;
    ev.events = regs[fd].events;
    ev.data = regs[fd].data;
    return epoll_ctl (regs[fd].epfd, EPOLL_CTL_MOD, fd, &ev) == 0;
}

static int
virt_wait (int ep, struct epoll_event *evs, int max, int timeout)
{
    uint64_t end = timeout > 0 ? now_ns + (uint64_t)timeout * 1000000u : 0;
    int n, i;

    vos_polls++;
    if (vos_poll_limit && vos_polls > vos_poll_limit)
        vt_fail ("livelock: event loop polled %llu times without finishing",
                 (unsigned long long)vos_polls);
    if (vos_env)
        vos_env (0);
    fire_due ();
    n = epoll_wait (ep, evs, max, 0);
    if (n != 0 || timeout == 0)
        return n;
    vos_idles++;
    if (vos_intr && vos_intr ()) {
        errno = EINTR;
        return -1;
    }
    for (;;) {
        uint64_t t = UINT64_MAX, e = UINT64_MAX;

        /* somebody outside is about to do something: time stands still */
        for (i = 0; vos_external && vos_external (); i++) {
            n = epoll_wait (ep, evs, max, i < 100 ? 1 : 100);
            if (n != 0)
                return n;
            if (i == 600)
                vt_fail ("harness: nothing came from outside");
        }
        for (i = 0; i < nvt; i++)
            if (vt[i].armed && vt[i].expire < t)
                t = vt[i].expire;
        if (vos_env_next)
            e = vos_env_next ();
        if (timeout > 0 && t > end && e > end) {
            if (now_ns < end)
                now_ns = end;
            return 0;
        }
        if (e <= t && e != UINT64_MAX) {
            if (e > now_ns)
                now_ns = e;
            fire_due ();
            if (vos_env)
                vos_env (1);
        } else if (t != UINT64_MAX) {
            if (t > now_ns)
                now_ns = t;
            fire_due ();
        } else {
            if (vos_env && vos_env (1)) {
                n = epoll_wait (ep, evs, max, 0);
                if (n)
                    return n;
                continue;
            }
            if (vos_grace_ms) {
                n = epoll_wait (ep, evs, max, vos_grace_ms);
                if (n != 0)
                    return n;
            }
            if (vos_deadlock)
                vos_deadlock ();
            vt_fail ("deadlock: every task waits and nothing can wake one");
        }
        n = epoll_wait (ep, evs, max, 0);
        if (n != 0)
            return n;
        if (vos_poll_limit && ++vos_polls > vos_poll_limit)
            vt_fail ("livelock: event loop idles without finishing");
    }
}

int
vw_epoll_wait (int ep, struct epoll_event *evs, int max, int timeout)
{
    count (VC_epoll_wait);
    if (virt && on_main ())
        return virt_wait (ep, evs, max, timeout);
    return epoll_wait (ep, evs, max, timeout);
}

int
vw_epoll_pwait (int ep, struct epoll_event *evs, int max, int timeout,
                const sigset_t *s)
{
    count (VC_epoll_wait);
    if (virt && on_main ())
        return virt_wait (ep, evs, max, timeout);
    return epoll_pwait (ep, evs, max, timeout, s);
}

/* ---------- transfers ---------- */
ssize_t
vw_read (int fd, void *b, size_t n)
{
    ssize_t r;
    PRE (read, fd);
    r = read (fd, b, limit (VC_read, fd, n));
    AFTER (read, fd, r);
    return r;
}

ssize_t
vw_write (int fd, const void *b, size_t n)
{
    ssize_t r;
    PRE (write, fd);
    r = write (fd, b, limit (VC_write, fd, n));
    AFTER (write, fd, r);
    return r;
}

static int
cut (struct iovec *d, const struct iovec *s, int n, size_t lim)
{
    int i;

    for (i = 0; i < n && lim; i++) {
        d[i] = s[i];
        if (d[i].iov_len > lim)
            d[i].iov_len = lim;
        lim -= d[i].iov_len;
    }
    return i;
}

static size_t
iovsum (const struct iovec *v, int n)
{
    size_t t = 0;
    int i;

    for (i = 0; i < n; i++)
        t += v[i].iov_len;
    return t;
}

#define VEC(call)                                                              \
    ssize_t vw_##call (int fd, const struct iovec *v, int n)                   \
    {                                                                          \
        ssize_t r;                                                             \
        size_t t, l;                                                           \
        PRE (call, fd);                                                        \
        t = (n > 0 && n <= 1024) ? iovsum (v, n) : 0;                          \
        l = limit (VC_##call, fd, t);                                          \
        if (l < t) {                                                           \
            struct iovec w[n];                                                 \
            int m = cut (w, v, n, l);                                          \
            r = call (fd, w, m);                                               \
        } else {                                                               \
            r = call (fd, v, n);                                               \
        }                                                                      \
        AFTER (call, fd, r);                                                   \
        return r;                                                              \
    }
VEC (readv)
VEC (writev)

ssize_t
vw_recv (int fd, void *b, size_t n, int f)
{
    ssize_t r;
    PRE (recv, fd);
    r = recv (fd, b, limit (VC_recv, fd, n), f);
    AFTER (recv, fd, r);
    return r;
}

ssize_t
vw_send (int fd, const void *b, size_t n, int f)
{
    ssize_t r;
    PRE (send, fd);
    r = send (fd, b, limit (VC_send, fd, n), f);
    AFTER (send, fd, r);
    return r;
}

ssize_t
vw_recvfrom (int fd, void *b, size_t n, int f, struct sockaddr *a,
             socklen_t *al)
{
    ssize_t r;
    PRE (recvfrom, fd);
    r = recvfrom (fd, b, limit (VC_recvfrom, fd, n), f, a, al);
    AFTER (recvfrom, fd, r);
    return r;
}

ssize_t
vw_sendto (int fd, const void *b, size_t n, int f, const struct sockaddr *a,
           socklen_t al)
{
    ssize_t r;
    PRE (sendto, fd);
    r = sendto (fd, b, limit (VC_sendto, fd, n), f, a, al);
    AFTER (sendto, fd, r);
    return r;
}

ssize_t
vw_recvmsg (int fd, struct msghdr *m, int f)
{
    ssize_t r;
    size_t t, l;
    PRE (recvmsg, fd);
    t = iovsum (m->msg_iov, m->msg_iovlen);
    l = limit (VC_recvmsg, fd, t);
    if (l < t) {
        struct iovec w[m->msg_iovlen], *o = m->msg_iov;
        size_t on = m->msg_iovlen;
        m->msg_iovlen = cut (w, o, on, l);
        m->msg_iov = w;
        r = recvmsg (fd, m, f);
        m->msg_iov = o;
        m->msg_iovlen = on;
    } else {
        r = recvmsg (fd, m, f);
    }
    AFTER (recvmsg, fd, r);
    return r;
}

ssize_t
vw_sendmsg (int fd, const struct msghdr *m, int f)
{
    ssize_t r;
    size_t t, l;
    PRE (sendmsg, fd);
    t = iovsum (m->msg_iov, m->msg_iovlen);
    l = limit (VC_sendmsg, fd, t);
    if (l < t) {
        struct iovec w[m->msg_iovlen];
        struct msghdr h = *m;
        h.msg_iovlen = cut (w, m->msg_iov, m->msg_iovlen, l);
        h.msg_iov = w;
        r = sendmsg (fd, &h, f);
    } else {
        r = sendmsg (fd, m, f);
    }
    AFTER (sendmsg, fd, r);
    return r;
}

int vos_splice_to;

ssize_t
vw_splice (int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f)
{
    ssize_t r;
    if (on_main ())
        vos_splice_to = b;
    PRE (splice, a);
    r = splice (a, ao, b, bo, limit (VC_splice, a, n), f);
    AFTER (splice, a, r);
    return r;
}

int
vw_connect (int fd, const struct sockaddr *a, socklen_t l)
{
    int r;
    PRE (connect, fd);
    r = connect (fd, a, l);
    AFTER (connect, fd, r);
    return r;
}

int
vw_accept (int fd, struct sockaddr *a, socklen_t *l)
{
    int r;
    PRE (accept, fd);
    r = accept (fd, a, l);
    AFTER (accept, fd, r);
    return r;
}

int
vw_accept4 (int fd, struct sockaddr *a, socklen_t *l, int f)
{
    int r;
    PRE (accept, fd);
    r = accept4 (fd, a, l, f);
    AFTER (accept, fd, r);
    return r;
}

int
vw_socket (int a, int b, int c)
{
    PRE (socket, -1);
    return socket (a, b, c);
}

int
vw_socketpair (int a, int b, int c, int *v)
{
    PRE (socketpair, -1);
    return socketpair (a, b, c, v);
}

int
vw_pipe (int *v)
{
    PRE (pipe, -1);
    return pipe (v);
}

int
vw_pipe2 (int *v, int f)
{
    PRE (pipe, -1);
    return pipe2 (v, f);
}

int
vw_open (const char *p, int f, ...)
{
    va_list ap;
    mode_t m = 0;
    PRE (open, -1);
    if ((f & O_CREAT) || (f & O_TMPFILE) == O_TMPFILE) {
        va_start (ap, f);
        m = va_arg (ap, int);
        va_end (ap);
    }
    return open (p, f, m);
}

int
vw_openat (int d, const char *p, int f, ...)
{
    va_list ap;
    mode_t m = 0;
    PRE (openat, -1);
    if ((f & O_CREAT) || (f & O_TMPFILE) == O_TMPFILE) {
        va_start (ap, f);
        m = va_arg (ap, int);
        va_end (ap);
    }
    return openat (d, p, f, m);
}

int
vw_creat (const char *p, mode_t m)
{
    PRE (creat, -1);
    return creat (p, m);
}

int
vw_dup (int fd)
{
    PRE (dup, fd);
    return dup (fd);
}

int
vw_dup2 (int a, int b)
{
    int r;
    PRE (dup2, a);
    r = dup2 (a, b);
    return r;
}

int
vw_dup3 (int a, int b, int f)
{
    PRE (dup2, a);
    return dup3 (a, b, f);
}

int
vw_fcntl (int fd, int cmd, ...)
{
    va_list ap;
    long arg;
    va_start (ap, cmd);
    arg = va_arg (ap, long);
    va_end (ap);
    if (on_main ())
        vos_op = cmd;
    PRE (fcntl, fd);
    return fcntl (fd, cmd, arg);
}

int
vw_ioctl (int fd, unsigned long req, ...)
{
    va_list ap;
    void *arg;
    va_start (ap, req);
    arg = va_arg (ap, void *);
    va_end (ap);
    PRE (ioctl, fd);
    return ioctl (fd, req, arg);
}

int
vw_close (int fd)
{
    int i, r;

    count (VC_close);
    if (on_main ()) {
        for (i = 0; i < nvt; i++)
            if (vt[i].fd == fd) {
                vt[i].fd = -1;
                vt[i].armed = 0;
            }
        if (fd >= 0 && fd < 4096)
            regs[fd].used = 0;
    }
    r = close (fd);
    AFTER (close, fd, r);
    return r;
}

int
vw_poll (struct pollfd *p, nfds_t n, int t)
{
    int r;
    PRE (poll, -1);
    r = poll (p, n, t);
    AFTER (poll, t, r);
    return r;
}

int
vw_getaddrinfo (const char *n, const char *s, const struct addrinfo *h,
                struct addrinfo **r)
{
    __atomic_add_fetch (&vos_count[VC_getaddrinfo], 1, __ATOMIC_RELAXED);
    if (vos_getaddrinfo)
        return vos_getaddrinfo (n, s, h, r);
    return getaddrinfo (n, s, h, r);
}

int
vw_getnameinfo (const struct sockaddr *a, socklen_t al, char *n, socklen_t nl,
                char *s, socklen_t sl, int f)
{
    __atomic_add_fetch (&vos_count[VC_getnameinfo], 1, __ATOMIC_RELAXED);
    if (vos_getnameinfo)
        return vos_getnameinfo (a, al, n, nl, s, sl, f);
    return getnameinfo (a, al, n, nl, s, sl, f);
}

int
vw_pthread_create (pthread_t *t, const pthread_attr_t *a, void *(*f) (void *),
                   void *d)
{
    count (VC_pthread_create);
    if (vos_fault && on_main ()) {
        int e = vos_fault (VC_pthread_create, -1);
        if (e)
            return e;
    }
    return pthread_create (t, a, f, d);
}

int
vw_sigaction (int s, const struct sigaction *a, struct sigaction *o)
{
    PRE (sigaction, -1);
    return sigaction (s, a, o);
}

int
vw_sigaltstack (const stack_t *a, stack_t *o)
{
    PRE (sigaltstack, -1);
    return sigaltstack (a, o);
}

void
vw_abort (void)
{
    vt_fail ("abort: the library called abort()");
}

/* ---------- descriptor table ---------- */
void
vos_fds (vos_fdset *s)
{
    int i;

    memset (s, 0, sizeof (*s));
    for (i = 0; i < 1024; i++)
        if (fcntl (i, F_GETFD) >= 0)
            s->w[i / 64] |= 1ull << (i % 64);
}

int
vos_fds_count (const vos_fdset *s)
{
    int i, n = 0;

    for (i = 0; i < 16; i++)
        n += __builtin_popcountll (s->w[i]);
    return n;
}

/* large-file names of the same calls */
int vw_open64 (const char *p, int f, ...) __attribute__ ((alias ("vw_open")));
int vw_openat64 (int d, const char *p, int f, ...)
    __attribute__ ((alias ("vw_openat")));
int vw_creat64 (const char *p, mode_t m) __attribute__ ((alias ("vw_creat")));
int vw_fcntl64 (int fd, int c, ...) __attribute__ ((alias ("vw_fcntl")));
void *vw_mmap64 (void *a, size_t n, int p, int f, int fd, off_t o)
    __attribute__ ((alias ("vw_mmap")));
