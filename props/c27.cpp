// VARIANTS default:60000:600000 heap:25000:250000 noslice:10000:100000 asan:8000:80000
#include "cio.hpp"
#include "fac.hpp"
#include <condition_variable>
#include <mutex>
#include <signal.h>
#include <thread>

const char *prop_id = "C27";
const char *prop_rule =
    "A case is 1 to 4 cycles of initialising a system, running generated uses of "
    "every facility in several tasks, with redundant initialisations before, "
    "inside and after, tasks that are never started, and finalising; all "
    "resources are compared after every cycle; or the same steps on 2 to 4 "
    "threads whose systems overlap in a generated order. Non-trivial: at "
    "least 3 different facilities were used, or systems overlapped. Distinct by the sequence of uses.";

struct Snap {
    vos_res r;
    vos_fdset fds;
    struct sigaction segv, bus;
    stack_t ss;
};

static void
snap (Snap *s)
{
    memset (s, 0, sizeof (*s));
    s->r = vos_live;
    vos_fds (&s->fds);
    sigaction (SIGSEGV, NULL, &s->segv);
    sigaction (SIGBUS, NULL, &s->bus);
    sigaltstack (NULL, &s->ss);
}

static void
same_sa (const struct sigaction *a, const struct sigaction *b, const char *n)
{
    VT_CHECK (a->sa_sigaction == b->sa_sigaction &&
                  !((a->sa_flags ^ b->sa_flags) & ~0x04000000),
              "handler: %s is handled differently afterwards", n);
    for (int i = 1; i < 65; i++)
        VT_CHECK (sigismember (&a->sa_mask, i) == sigismember (&b->sa_mask, i),
                  "handler: the mask of %s is different afterwards", n);
}

static void
same (const Snap *a, const Snap *b, const char *when)
{
    for (int i = 0; i < 1024; i++)
        VT_CHECK (((a->fds.w[i / 64] ^ b->fds.w[i / 64]) >> (i % 64) & 1) == 0,
                  "descriptor: %d is %s after %s", i,
                  b->fds.w[i / 64] >> (i % 64) & 1 ? "left open" : "gone",
                  when);
    VT_CHECK (a->r.maps == b->r.maps && a->r.map_bytes == b->r.map_bytes,
              "mapping: %ld mappings, %ld bytes more after %s",
              b->r.maps - a->r.maps, b->r.map_bytes - a->r.map_bytes, when);
    VT_CHECK (a->r.blocks == b->r.blocks && a->r.bytes == b->r.bytes,
              "memory: %ld blocks, %ld bytes more after %s",
              b->r.blocks - a->r.blocks, b->r.bytes - a->r.bytes, when);
    same_sa (&a->segv, &b->segv, "SIGSEGV");
    same_sa (&a->bus, &b->bus, "SIGBUS");
    VT_CHECK (a->ss.ss_flags == b->ss.ss_flags &&
                  (a->ss.ss_flags & SS_DISABLE ||
                   (a->ss.ss_sp == b->ss.ss_sp &&
                    a->ss.ss_size == b->ss.ss_size)),
              "signal stack: it is different after %s", when);
}

static void
handler (int s, siginfo_t *i, void *c)
{
    signal (s, SIG_DFL);
    raise (s);
}

static int inits;

static void
init_again (void)
{
    inits++;
    VT_CHECK (hev_task_system_init () < 0, "again: a second initialisation "
                                           "succeeded");
}

struct Use {
    int fac;
    uint64_t seed;
    int again; /* redundant initialisation before */
};

static void
warm (void)
{
    /* the helper thread stays for the life of the process */
    vos_reset ();
    vos_getaddrinfo = fac_gai;
    vos_getnameinfo = fac_gni;
    vos_virtual (0);
    ts_init ();
    ts_go ([] {
        struct addrinfo *r = NULL;
        if (hev_task_dns_getaddrinfo ("n1", NULL, NULL, &r) == 0)
            free (r);
    });
    ts_run ();
    ts_fini ();
    vos_virtual (1);
}

int
prop_setup (void)
{
    warm ();
    return 0;
}

/* Systems of several threads that overlap in time, one step at a time. */
struct Worker {
    std::thread th;
    std::mutex m;
    std::condition_variable c;
    std::function<void ()> job;
    bool quit = false;

    void
    loop ()
    {
        std::unique_lock<std::mutex> l (m);
        for (;;) {
            c.wait (l, [&] { return quit || job; });
            if (quit)
                return;
            job ();
            job = nullptr;
            c.notify_all ();
        }
    }
    void
    run (std::function<void ()> f)
    {
        std::unique_lock<std::mutex> l (m);
        job = std::move (f);
        c.notify_all ();
        c.wait (l, [&] { return !job; });
    }
    void
    end ()
    {
        {
            std::unique_lock<std::mutex> l (m);
            quit = true;
            c.notify_all ();
        }
        th.join ();
    }
};

static void
use_entry (void *d)
{
    (*(std::function<void ()> *)d) ();
}

static void
overlap (const Snap *s0)
{
    static const FacFn quick[] = { fac_tasks, fac_channel, fac_pipe,
                                   fac_cio,   fac_buffer,  fac_mem,
                                   fac_splice, fac_ciosplice, fac_cond };
    int n = vt_range (2, 4), left[4], stage[4] = { 0 }, open = 0, both = 0;
    Worker w[4];
    Snap t0[4], s1;

    for (int i = 0; i < n; i++) {
        left[i] = vt_range (1, 2);
        if (i)
            w[i].th = std::thread ([&, i] { w[i].loop (); });
    }
    auto on = [&] (int i, std::function<void ()> f) {
        if (i)
            w[i].run (f);
        else
            f ();
    };
    for (;;) {
        int live[4], k = 0, i;
        for (i = 0; i < n; i++)
            if (left[i])
                live[k++] = i;
        if (!k)
            break;
        i = live[vt_u (k)];
        vt_sig (i);
        vt_log ("thread %d: stage %d", i, stage[i]);
        if (stage[i] == 0) {
            on (i, [&] {
                sigaltstack (NULL, &t0[i].ss);
                VT_CHECK (hev_task_system_init () == 0,
                          "again: no system for another thread");
            });
            open++;
            stage[i] = 1 + vt_u (2);
        } else if (stage[i] < 3) {
            int what = vt_u (sizeof (quick) / sizeof (quick[0]));
            uint64_t seed = vt_u (1 << 20);
            on (i, [&] {
                std::function<void ()> f = [&] {
                    Fac x = { seed, i };
                    VT_CHECK (quick[what](x) >= 0, "use: failed");
                };
                HevTask *t = hev_task_new (TS_STACK);
                VT_CHECK (t, "use: no task");
                hev_task_run (t, use_entry, &f);
                hev_task_system_run ();
            });
            stage[i]++;
        } else {
            on (i, [&] {
                stack_t ss;
                hev_task_system_fini ();
                sigaltstack (NULL, &ss);
                VT_CHECK (ss.ss_flags == t0[i].ss.ss_flags,
                          "signal stack: different on its thread afterwards");
            });
            if (open > 1)
                both++;
            open--;
            stage[i] = 0;
            left[i]--;
            if (!open) {
                snap (&s1);
                same (s0, &s1, "the last system ended");
            }
        }
    }
    for (int i = 1; i < n; i++)
        w[i].end ();
    snap (&s1);
    same (s0, &s1, "all threads ended");
    vt_label ("overlapping ends", both);
    if (both)
        vt_nontrivial ();
    vt_sample ("%d threads, %d overlapping ends", n, both);
}

static void
quiet (void)
{
    stack_t ss;

    signal (SIGSEGV, SIG_DFL);
    signal (SIGBUS, SIG_DFL);
    memset (&ss, 0, sizeof (ss));
    ss.ss_flags = SS_DISABLE;
    sigaltstack (&ss, NULL);
}

void
prop_case (void)
{
    static char mystack[65536];
    int cycles = vt_range (1, 4);
    Snap s0, s1;
    uint64_t used = 0;
    int total = 0;
    bool own = vt_chance (1, 3);

    ts_env_clear ();
    inits = 0;
    ts_clock ();
    fac_out = 0;
    vos_external = fac_external;
    vos_getaddrinfo = fac_gai;
    vos_getnameinfo = fac_gni;
    if (own) {
        /* the program has handlers and a signal stack of its own */
        struct sigaction sa;
        stack_t ss;
        memset (&sa, 0, sizeof (sa));
        sa.sa_sigaction = handler;
        sa.sa_flags = SA_SIGINFO | (vt_bool () ? SA_NODEFER : 0) |
                      (vt_bool () ? SA_ONSTACK : 0);
        sigaddset (&sa.sa_mask, SIGUSR1);
        sigaction (SIGSEGV, &sa, NULL);
        sa.sa_flags ^= SA_RESTART;
        sigaction (SIGBUS, &sa, NULL);
        memset (&ss, 0, sizeof (ss));
        ss.ss_sp = mystack;
        ss.ss_size = sizeof (mystack);
        sigaltstack (&ss, NULL);
    }
    snap (&s0);
    if (vt_chance (1, 4)) {
        overlap (&s0);
        if (own)
            quiet ();
        return;
    }
    if (vt_chance (1, 500)) {
        /* any number of times */
        int n = vt_pick ({ 300, 1100, 2200 });
        for (int c = 0; c < n; c++) {
            bool ran = false;
            ts_init ();
            if (!vt_zero_idle)
                s0.fds.w[0] &= ~1ull;
            if (c % 7 == 0) {
                ts_go ([&] { ran = true; });
                ts_run ();
                VT_CHECK (ran, "use: a task did not run");
            }
            ts_fini ();
        }
        snap (&s1);
        same (&s0, &s1, "many systems ended");
        vt_label ("long series of systems");
    }
    for (int c = 0; c < cycles; c++) {
        int nt = vt_range (1, 3), never = vt_u (3);
        std::vector<std::vector<Use>> plan;
        std::vector<HevTask *> idle;
        int done = 0;

        vt_log ("cycle %d", c);
        ts_init ();
        if (!vt_zero_idle) /* closed by now */
            s0.fds.w[0] &= ~1ull;
        if (vt_chance (1, 4))
            init_again ();
        for (int i = 0; i < nt; i++) {
            std::vector<Use> p;
            int n = vt_u (5);
            for (int k = 0; k < n; k++) {
                Use u = { (int)vt_u (NFAC), vt_u (1 << 20),
                          vt_chance (1, 12) ? 1 : 0 };
                p.push_back (u);
                vt_sig (u.fac * 2 + u.again);
                used |= 1u << u.fac;
            }
            plan.push_back (p);
        }
        for (int i = 0; i < never; i++)
            idle.push_back (ts_new (vt_bool () ? -1 : 5000));
        for (int i = 0; i < nt; i++) {
            ts_go ([&, i] {
                for (auto &u : plan[i]) {
                    Fac f = { u.seed, i };
                    if (u.again)
                        init_again ();
                    vt_log ("task %d: %s", i, facs[u.fac].name);
                    VT_CHECK (facs[u.fac].fn (f) >= 0, "use: %s failed",
                              facs[u.fac].name);
                    total++;
                }
                done++;
            }, vt_range (HEV_TASK_PRIORITY_MIN, HEV_TASK_PRIORITY_MAX));
        }
        for (size_t i = 0; i < idle.size () / 2; i++)
            hev_task_unref (idle[i]);
        ts_run ();
        VT_CHECK (done == nt, "lost: %d of %d tasks ended", done, nt);
        if (vt_chance (1, 4))
            init_again ();
        /* running again without tasks comes back at once */
        if (vt_chance (1, 6))
            ts_run ();
        for (size_t i = idle.size () / 2; i < idle.size (); i++)
            hev_task_unref (idle[i]);
        ts_fini ();
        snap (&s1);
        same (&s0, &s1, "the system ended");
        /* plain allocation works between systems */
        if (vt_chance (1, 5)) {
            void *p = hev_malloc (100), *q = hev_malloc0 (5000);
            VT_CHECK (p && q, "memory: no memory between systems");
            hev_free (p);
            hev_free (q);
            ts_init ();
            ts_fini ();
            snap (&s1);
            same (&s0, &s1, "an unused system ended");
        }
    }
    if (own)
        quiet ();
    if (__builtin_popcountll (used) >= 3)
        vt_nontrivial ();
    vt_label ("uses", total);
    vt_label ("cycles", cycles);
    vt_label ("redundant initialisations", inits);
    vt_sample ("cycles=%d uses=%d kinds=%d redundant=%d%s", cycles, total,
               __builtin_popcountll (used), inits,
               own ? " own handlers" : "");
}
