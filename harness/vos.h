/*
 * Virtual OS layer: every system and C library call made by the library under
 * test is redirected here (objcopy --redefine-syms), so that the harness owns
 * the clock, the idle behaviour of the event loop, resource accounting and
 * injected failures.  Without a hook every call goes straight to the kernel.
 */
#ifndef VOS_H
#define VOS_H

#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>

#ifdef __cplusplus
extern "C" {
#endif

#define VOS_CALLS(X)                                                           \
    X (malloc) X (calloc) X (realloc) X (free) X (mmap) X (munmap)             \
    X (mprotect) X (clock_gettime) X (timerfd_create) X (timerfd_settime)      \
    X (epoll_create) X (epoll_ctl) X (epoll_wait) X (read) X (write)           \
    X (readv) X (writev) X (recv) X (send) X (recvfrom) X (sendto)             \
    X (recvmsg) X (sendmsg) X (connect) X (accept) X (socket) X (socketpair)   \
    X (pipe) X (open) X (openat) X (creat) X (dup) X (dup2) X (fcntl)          \
    X (ioctl) X (close) X (splice) X (poll) X (getaddrinfo) X (getnameinfo)    \
    X (pthread_create) X (sigaction) X (sigaltstack)

enum {
#define X(n) VC_##n,
    VOS_CALLS (X)
#undef X
    VC_MAX
};

extern const char *vos_call_name[VC_MAX];

/* ---- lifecycle ---- */
void vos_init (void);  /* once per process */
void vos_reset (void); /* before every case */

/* ---- virtual clock (main thread only) ---- */
void vos_virtual (int on);
void vos_set_time (uint64_t ns);
uint64_t vos_now (void);
void vos_advance (uint64_t ns);
/* every clock_gettime by the library advances the clock by this much */
extern uint32_t vos_clock_step;
/* number of epoll_wait calls made so far in this case */
extern uint64_t vos_polls;
/* limit on polls without progress notification; 0 = off */
extern uint64_t vos_poll_limit;
/* number of waits that really had to block (idle) */
extern uint64_t vos_idles;

/* Environment: called inside every virtual epoll_wait.  idle=0: before the
 * kernel is asked; idle=1: nothing is ready and the loop is about to sleep.
 * Returns non-zero if it did something (the kernel is then asked again). */
extern int (*vos_env) (int idle);
/* next absolute virtual time at which the environment wants to be called with
 * idle=1 (UINT64_MAX: none). */
extern uint64_t (*vos_env_next) (void);
/* called when the loop would sleep forever */
extern void (*vos_deadlock) (void);
/* real grace (ms) before an idle loop counts as asleep forever */
extern int vos_grace_ms;
/* non-zero while another thread is about to produce an event: a loop with
 * nothing to do then really waits for it instead of moving the clock */
extern int (*vos_external) (void);
/* whether a signal interrupts the wait for events that is about to start */
extern int (*vos_intr) (void);
/* observation of, and faults for, calls made by other threads */
extern void (*vos_other) (int call, int fd, long ret);
extern int (*vos_fault_other) (int call, int fd);

/* ---- faults ---- */
/* return 0 to let the call through, or an errno to fail it with */
extern int (*vos_fault) (int call, int fd);
/* limit for the size of a transfer (read/write family); return want to leave */
extern size_t (*vos_short) (int call, int fd, size_t want);
/* observation after a call */
extern void (*vos_after) (int call, int fd, long ret, int err);
extern uint64_t vos_count[VC_MAX];
/* operation of the epoll_ctl or fcntl call being made */
extern int vos_op;
/* destination of the splice call being made */
extern int vos_splice_to;

/* resolver stand-ins */
struct addrinfo;
struct sockaddr;
extern int (*vos_getaddrinfo) (const char *, const char *,
                               const struct addrinfo *, struct addrinfo **);
extern int (*vos_getnameinfo) (const struct sockaddr *, unsigned, char *,
                               unsigned, char *, unsigned, int);

/* memory to use for an anonymous mapping, or MAP_FAILED for a real one */
extern void *(*vos_mmap) (size_t n);

/* ---- resource accounting of the library ---- */
typedef struct {
    long blocks, bytes; /* malloc family */
    long maps, map_bytes;
} vos_res;
extern vos_res vos_live;
/* larger requests fail with ENOMEM */
extern size_t vos_alloc_max;
extern int vos_track; /* on by default in single-threaded checks */
/* is [p,p+n) inside one live malloc block / mapping of the library? */
int vos_find_block (const void *p, void **base, size_t *size);
int vos_find_map (const void *p, void **base, size_t *size);
/* overlap test: 1 if [p,p+n) intersects any live block or map other than the
 * one containing p */
int vos_overlaps (const void *p, size_t n);
void vos_each_block (void (*fn) (void *p, size_t n, void *d), void *d);

/* descriptors open in this process, as a bitmap of 1024 */
typedef struct {
    uint64_t w[16];
} vos_fdset;
void vos_fds (vos_fdset *s);
int vos_fds_count (const vos_fdset *s);

/* epoll registrations made by the library: is fd registered, with which events */
int vos_registered (int fd, uint32_t *events);
/* make the kernel report the current readiness of fd again (legal wake-up
 * after an injected would-block) */
int vos_rearm (int fd);

#ifdef __cplusplus
}
#endif
#endif
