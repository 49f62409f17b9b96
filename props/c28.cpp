// VARIANTS default:50000:600000 heap:15000:200000 nosplice:8000:100000 noslice:40000:400000 asan:10000:100000
#include "cio.hpp"
#include "fac.hpp"
#include <signal.h>
#include <sys/epoll.h>

const char *prop_id = "C28";
const char *prop_rule =
    "A case initialises a system, runs generated uses of every facility next to "
    "a few tasks that keep talking to each other, makes one acquisition of each "
    "of some uses fail (the n-th allocation, mapping, descriptor, registration "
    "or thread), repeats the use without failure, and compares resources at "
    "the end. Non-trivial: at least one acquisition was made to fail. Distinct "
    "by the sequence of uses and failure positions.";
int
prop_batch (void)
{
    return 1; /* the helper thread has to be startable */
}

static int armed, fired_call;
static int at, seen;
static int other_armed, other_at, other_seen, other_fired;

static int
acquires (int call)
{
    switch (call) {
    case VC_malloc:
    case VC_calloc:
    case VC_realloc:
    case VC_mmap:
    case VC_mprotect:
        return ENOMEM;
    case VC_timerfd_create:
    case VC_epoll_create:
    case VC_accept:
    case VC_socket:
    case VC_socketpair:
    case VC_pipe:
    case VC_open:
    case VC_openat:
    case VC_creat:
    case VC_dup:
    case VC_dup2:
        return EMFILE;
    case VC_epoll_ctl:
        return vos_op == EPOLL_CTL_ADD ? ENOSPC : 0;
    case VC_fcntl:
        return vos_op == F_SETPIPE_SZ ? EPERM : 0;
    case VC_pthread_create:
        return EAGAIN;
    }
    return 0;
}

static int
fail_one (int call, int fd)
{
    int e = armed ? acquires (call) : 0;

    if (!e || seen++ != at)
        return 0;
    armed = 0;
    fac_fired++;
    fired_call = call;
    vt_log ("  acquisition %d fails: %s", at, vos_call_name[call]);
    return e;
}

static int
fail_other (int call, int fd)
{
    int e;

    if (!__atomic_load_n (&other_armed, __ATOMIC_RELAXED))
        return 0;
    switch (call) {
    case VC_malloc:
    case VC_calloc:
        e = ENOMEM;
        break;
    case VC_epoll_create:
        e = EMFILE;
        break;
    default:
        return 0;
    }
    if (other_seen++ != other_at)
        return 0;
    __atomic_store_n (&other_armed, 0, __ATOMIC_RELAXED);
    __atomic_add_fetch (&other_fired, 1, __ATOMIC_RELAXED);
    return e;
}

static void
arm (int k)
{
    at = k;
    seen = 0;
    fac_fired = 0;
    fired_call = -1;
    armed = 1;
}

static bool
disarm (void)
{
    armed = 0;
    return fac_fired > 0;
}

struct Snap {
    vos_res r;
    int fds;
    struct sigaction segv, bus;
    stack_t ss;
};

static void
snap (Snap *s)
{
    vos_fdset f;

    memset (s, 0, sizeof (*s));
    s->r = vos_live;
    vos_fds (&f);
    s->fds = vos_fds_count (&f);
    sigaction (SIGSEGV, NULL, &s->segv);
    sigaction (SIGBUS, NULL, &s->bus);
    sigaltstack (NULL, &s->ss);
}

static void
same (const Snap *a, const Snap *b)
{
    VT_CHECK (a->fds == b->fds, "leak: %d more descriptors at the end",
              b->fds - a->fds);
    VT_CHECK (a->r.maps == b->r.maps && a->r.map_bytes == b->r.map_bytes,
              "leak: %ld more mappings, %ld bytes at the end",
              b->r.maps - a->r.maps, b->r.map_bytes - a->r.map_bytes);
    VT_CHECK (a->r.blocks == b->r.blocks && a->r.bytes == b->r.bytes,
              "leak: %ld more blocks, %ld bytes at the end",
              b->r.blocks - a->r.blocks, b->r.bytes - a->r.bytes);
    VT_CHECK (a->segv.sa_sigaction == b->segv.sa_sigaction &&
                  a->bus.sa_sigaction == b->bus.sa_sigaction &&
                  a->ss.ss_flags == b->ss.ss_flags,
              "leak: signal handling is different at the end");
}

static void
normal (void)
{
    /* a first plain allocation leaves its allocator until the next system */
    ts_init ();
    ts_fini ();
}

static void
resolve (void)
{
    struct addrinfo *r = NULL;

    fac_out++;
    if (hev_task_dns_getaddrinfo ("n1", NULL, NULL, &r) == 0)
        free (r);
    fac_out--;
}

static void
warm (void)
{
    ts_init ();
    ts_go (resolve);
    ts_run ();
    ts_fini ();
}

/* initialisation itself */
static int
try_init (int k, bool running)
{
    int r;

    arm (k);
    r = hev_task_system_init ();
    if (!disarm ())
        VT_CHECK (running ? r < 0 : r == 0,
                  "init: %d although nothing failed", r);
    if (running)
        VT_CHECK (r < 0, "init: a second initialisation succeeded");
    return r;
}

/* The helper thread of name resolution is started by the first question. */
static void
first_question (void)
{
    int kind = vt_u (2), k = vt_u (8);
    int r = 0, r2 = 0, fired = 0;
    int fds0, fds1;
    vos_fdset f;
    vos_res m0, m1;

    vt_sig (100 + kind * 16 + k);
    vt_log ("first question, %s thread, position %d",
            kind ? "helper" : "asking", k);
    ts_init ();
    ts_go ([&] {
        struct addrinfo *a = NULL;
        vos_fds (&f);
        fds0 = vos_fds_count (&f);
        m0 = vos_live;
        if (kind) {
            fac_fired = 0;
            other_at = k;
            other_seen = 0;
            __atomic_store_n (&other_armed, 1, __ATOMIC_RELAXED);
        } else {
            arm (k);
        }
        fac_out++;
        r = hev_task_dns_getaddrinfo ("n7", "8", NULL, &a);
        fac_out--;
        disarm ();
        __atomic_store_n (&other_armed, 0, __ATOMIC_RELAXED);
        fired = fac_fired + other_fired;
        vt_log ("result %d, %d failed", r, fired);
        if (r == 0)
            free (a);
        else
            VT_CHECK (fired && r == EAI_SYSTEM, "use: dns: result %d", r);
        fac_fired = 0;
        for (int i = 0; i < 2; i++) {
            a = NULL;
            fac_out++;
            r2 = hev_task_dns_getaddrinfo ("n8", NULL, NULL, &a);
            fac_out--;
            VT_CHECK (r2 == 0, "repeat: dns: result %d once nothing fails", r2);
            free (a);
        }
    });
    ts_run ();
    ts_fini ();
    if (fired) {
        vt_nontrivial ();
        vt_label (kind ? "helper start" : "first question", 1);
    }
}

void
prop_case (void)
{
    Snap s0, s1;
    int n, done = 0, lead, fails = 0, reported = 0;
    bool stop = false, redundant;
    HevTaskChannel *ca, *cb;

    ts_env_clear ();
    ts_clock ();
    fac_out = 0;
    vos_external = fac_external;
    vos_getaddrinfo = fac_gai;
    vos_getnameinfo = fac_gni;
    vos_fault = fail_one;
    vos_fault_other = fail_other;
    armed = other_armed = other_fired = 0;

    if (vt_chance (1, 8)) {
        first_question ();
        return;
    }
    if (vt_chance (1, 8)) {
        /* allocation outside of any system */
        int k = vt_u (4);
        normal ();
        snap (&s0);
        vt_sig (200 + k);
        arm (k);
        void *p = vt_bool () ? hev_malloc (100) : hev_malloc0 (5000);
        if (p)
            memset (p, 1, 100);
        else
            VT_CHECK (fac_fired, "use: no memory");
        void *q = hev_realloc (p, 300);
        bool f = disarm ();
        if (q)
            memset (q, 2, 300);
        else
            VT_CHECK (f, "use: no memory");
        hev_free (q ? q : p);
        p = hev_calloc (3, 50);
        VT_CHECK (p, "repeat: no memory once nothing fails");
        hev_free (p);
        normal ();
        snap (&s1);
        same (&s0, &s1);
        if (f)
            vt_nontrivial ();
        vt_label ("outside a system", f);
        return;
    }
    warm ();
    snap (&s0);
    lead = vt_u (3);
    for (int i = 0; i < lead; i++) {
        int k = vt_u (14), r;
        vt_log ("initialisation, position %d", k);
        vt_sig (300 + k);
        r = try_init (k, false);
        fails += fac_fired;
        if (r == 0)
            ts_fini ();
        else
            reported++;
    }
    n = vt_range (0, 5);
    ts_init ();
    redundant = vt_chance (1, 5);
    if (hev_task_channel_new (&ca, &cb) < 0)
        vt_fail ("harness: channel");
    uint64_t pings = 0, sum = 0;
    ts_go ([&] {
        while (!stop) {
            pings++;
            hev_task_channel_write (ca, &pings, 8);
            hev_task_sleep (1);
        }
        uint64_t z = 0;
        hev_task_channel_write (ca, &z, 8);
    });
    ts_go ([&] {
        for (uint64_t next = 1, v;; next++) {
            if (hev_task_channel_read (cb, &v, 8) != 8)
                vt_fail ("others: a neighbour's channel broke");
            if (v == 0)
                break;
            VT_CHECK (v == next, "others: a neighbour got %llu for %llu",
                      (unsigned long long)v, (unsigned long long)next);
            sum++;
        }
    });
    ts_go ([&] {
        for (int i = 0; i < n; i++) {
            int w = vt_u (NFAC), k = vt_chance (1, 4) ? vt_u (60) : vt_u (10);
            uint64_t seed = vt_u (1 << 20);
            long r;
            Fac f = { seed, 0 };

            vt_sig (w * 64 + k);
            vt_log ("%s, position %d", facs[w].name, k);
            arm (k);
            r = facs[w].fn (f);
            disarm ();
            VT_CHECK (r >= 0 || fac_fired, "use: %s failed for nothing",
                      facs[w].name);
            fails += fac_fired;
            reported += r < 0;
            if (fac_fired)
                vt_label (facs[w].name, 1);
            fac_fired = 0;
            f.rng = seed;
            r = facs[w].fn (f);
            VT_CHECK (r >= 0, "repeat: %s failed although nothing fails now",
                      facs[w].name);
            if (redundant) {
                try_init (vt_u (4), true);
                fails += fac_fired;
                redundant = false;
            }
            done++;
        }
        stop = true;
    });
    ts_run ();
    VT_CHECK (done == n, "others: the work did not end");
    VT_CHECK (sum == pings, "others: %llu of %llu messages arrived",
              (unsigned long long)sum, (unsigned long long)pings);
    hev_task_channel_destroy (ca);
    hev_task_channel_destroy (cb);
    ts_fini ();
    snap (&s1);
    same (&s0, &s1);
    if (fails)
        vt_nontrivial ();
    vt_label ("failed acquisitions", fails);
    vt_label ("reported", reported);
    vt_sample ("uses=%d failed acquisitions=%d reported=%d", n, fails,
               reported);
}
