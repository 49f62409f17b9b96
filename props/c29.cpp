// VARIANTS tsan:4000:40000 default:6000:60000 heap:1500:15000 asan:1200:12000
#include "cio.hpp"
#include "fac.hpp"
#include <atomic>
#include <sched.h>
#include <signal.h>
#include <thread>

const char *prop_id = "C29";
const char *prop_rule =
    "A case starts 2 to 4 threads of a fresh process at generated offsets; each "
    "runs 1 or 2 systems with a generated program of uses of every facility, "
    "then every program is run again with no other thread around and the "
    "results are compared. Non-trivial: at least two programs with 2 uses "
    "each. Distinct by the programs.";

int
prop_racy (void)
{
    return 1;
}

int
prop_batch (void)
{
    return 1; /* first use by several threads at once */
}

/* which of the tasks gets its turn when */
static long
fac_order (Fac &f)
{
    FacSub s[5];
    int n = f.range (2, 5);
    uint64_t h = 7;
    bool bad = false;
    int made;

    for (made = 0; made < n; made++) {
        int laps = f.range (1, 6), p = f.range (-8, 8), i = made;
        if (!fac_go (&s[made], [=, &h] {
                hev_task_set_priority (hev_task_self (), p);
                for (int l = 0; l < laps; l++) {
                    h = h * 31 + i;
                    hev_task_yield (HEV_TASK_YIELD);
                }
            })) {
            bad = true;
            break;
        }
    }
    for (int i = 0; i < made; i++)
        fac_join (&s[i]);
    return bad ? -1 : (long)(h & 0x7fffffff);
}

/* layers, whose classes are set up at first use */
static long
fac_objects (Fac &f)
{
    int n = f.range (1, 6);
    long r = 0;

    for (int i = 0; i < n; i++) {
        Cio *c = f.u (2) ? hev_task_cio_null_new ()
                         : hev_task_cio_buffer_new (f.u (100), f.u (100));
        if (!c)
            return -1;
        Cio *d = hev_task_cio_null_new ();
        if (!d)
            return -1;
        if (f.u (2)) {
            c = hev_task_cio_push (c, d);
        } else {
            sh_ref (d);
            sh_unref (d);
            sh_unref (d);
        }
        r++;
        sh_unref (c);
    }
    return r;
}

static const struct {
    const char *name;
    FacFn fn;
} extra[] = { { "order", fac_order }, { "objects", fac_objects } };
#define NUSE (NFAC + 2)

struct Use {
    int fac, task;
    uint64_t seed;
};
struct Prog {
    std::vector<Use> uses;
    int tasks, cycles, spin;
    std::vector<long> out[2]; /* together, alone */
};

static long
use_one (const Use &u, int id)
{
    Fac f = { u.seed, id };

    if (u.fac < NFAC)
        return facs[u.fac].fn (f);
    return extra[u.fac - NFAC].fn (f);
}

static const char *
use_name (int k)
{
    return k < NFAC ? facs[k].name : extra[k - NFAC].name;
}

struct Arg {
    Prog *p;
    int which, task, id;
    size_t base;
};

static void
task_entry (void *d)
{
    Arg *a = (Arg *)d;

    for (size_t i = 0; i < a->p->uses.size (); i++)
        if (a->p->uses[i].task == a->task)
            a->p->out[a->which][a->base + i] =
                use_one (a->p->uses[i], a->id * 8 + a->task);
}

static void
run_prog (Prog *p, int which, int id)
{
    p->out[which].assign (p->uses.size () * p->cycles, -99);
    for (int c = 0; c < p->cycles; c++) {
        Arg a[3];
        if (hev_task_system_init () < 0)
            vt_fail ("init: thread %d has no system", id);
        for (int t = 0; t < p->tasks; t++) {
            a[t] = { p, which, t, id, c * p->uses.size () };
            HevTask *k = hev_task_new (TS_STACK);
            if (!k)
                vt_fail ("use: no task");
            hev_task_run (k, task_entry, &a[t]);
        }
        hev_task_system_run ();
        hev_task_system_fini ();
    }
}

void
prop_case (void)
{
    int n = vt_range (2, 4), rich = 0;
    Prog p[4];
    std::thread th[4];
    static std::atomic<int> go;
    struct sigaction sa0[2], sa1[2];

    ts_env_clear ();
    vos_getaddrinfo = fac_gai;
    vos_getnameinfo = fac_gni;
    if (!strcmp (vt_variant (), "tsan"))
        vos_track = 0;
    fac_out = 0;
    int same = vt_chance (1, 2) ? (int)vt_u (NUSE) : -1;
    for (int i = 0; i < n; i++) {
        int k = vt_range (1, 5);
        p[i].tasks = vt_range (1, 3);
        p[i].cycles = vt_range (1, 2);
        p[i].spin = vt_chance (1, 2) ? 0 : vt_u (3000);
        for (int j = 0; j < k; j++) {
            Use u;
            /* often everybody starts with the same facility */
            u.fac = j == 0 && same >= 0 ? same : (int)vt_u (NUSE);
            u.task = vt_u (p[i].tasks);
            u.seed = vt_u (1 << 20);
            p[i].uses.push_back (u);
            vt_sig (i * 32 + u.fac);
            vt_log ("thread %d, task %d: %s", i, u.task, use_name (u.fac));
            vt_label (use_name (u.fac), 1);
        }
        rich += k >= 2;
    }
    sigaction (SIGSEGV, NULL, &sa0[0]);
    sigaction (SIGBUS, NULL, &sa0[1]);
    go.store (0, std::memory_order_relaxed);
    for (int i = 0; i < n; i++)
        th[i] = std::thread ([&, i] {
            /* start together, without ordering anything */
            go.fetch_add (1, std::memory_order_relaxed);
            while (go.load (std::memory_order_relaxed) < n)
                sched_yield ();
            for (volatile int s = p[i].spin; s > 0; s = s - 1)
                ;
            run_prog (&p[i], 0, i);
        });
    for (int i = 0; i < n; i++)
        th[i].join ();
    sigaction (SIGSEGV, NULL, &sa1[0]);
    sigaction (SIGBUS, NULL, &sa1[1]);
    for (int i = 0; i < 2; i++)
        VT_CHECK (sa0[i].sa_sigaction == sa1[i].sa_sigaction &&
                      /* the C library adds its own restorer */
                      !((sa0[i].sa_flags ^ sa1[i].sa_flags) & ~0x04000000),
                  "handler: a signal is handled differently after all systems "
                  "have ended");
    for (int i = 0; i < n; i++) {
        std::thread t ([&, i] { run_prog (&p[i], 1, i); });
        t.join ();
        for (size_t k = 0; k < p[i].out[0].size (); k++) {
            const char *name = use_name (p[i].uses[k % p[i].uses.size ()].fac);
            VT_CHECK (p[i].out[1][k] >= 0, "harness: %s alone gave %ld", name,
                      p[i].out[1][k]);
            VT_CHECK (p[i].out[0][k] == p[i].out[1][k],
                      "differs: thread %d, %s: %ld with others, %ld alone", i,
                      name, p[i].out[0][k], p[i].out[1][k]);
        }
    }
    if (rich >= 2)
        vt_nontrivial ();
    vt_sample ("%d threads, %zu+%zu uses", n, p[0].uses.size (),
               p[1].uses.size ());
}
