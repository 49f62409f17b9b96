// VARIANTS default:9000:120000 nosod:1000:12000
#include "ts.hpp"
#include <condition_variable>
#include <fcntl.h>
#include <mutex>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>

const char *prop_id = "C34";
const char *prop_rule =
    "A case is a process of its own with generated fault handlers (none, one, "
    "both, with and without details, returning control or ending), systems on "
    "one to three threads that start and end in a generated order, tasks on "
    "each, and one or more faults: over the end of a task's stack, or at "
    "generated other addresses, inside a task, outside tasks, or on a thread "
    "without a system. Non-trivial: the fault happened. Distinct by handlers, "
    "systems, place and kind of the fault.";

#define PAGE 4096
enum { OVER, GUARD, NUL, NOACCESS, RDONLY, BUS, NKIND };
static const char *const kinds[] = { "endless recursion", "over the end",
                                     "null",              "protected page",
                                     "read-only page",    "beyond a file" };
enum { IN_TASK, OUTSIDE, BARE, ENDED };

struct Ctl {
    volatile int stage; /* 1: about to fault, 2: went on, 4: ended */
    volatile int seen;  /* runs of the program's handler */
    volatile int sig[8];
    void *volatile addr[8];
    void *volatile want;     /* address of the fault, if known */
    void *volatile lo, *hi; /* else between these */
    void *volatile task;
    void *volatile others[16];
    volatile int nothers;
    char msg[200];
};
static Ctl *ctl;
static bool can_return;
static thread_local sigjmp_buf jb;
static int kind, where, faults, frame;
static size_t off;
static unsigned char *pages[8]; /* places for faults */

static void
seen (int s, void *a)
{
    int n = ctl->seen;

    if (n < 8) {
        ctl->sig[n] = s;
        ctl->addr[n] = a;
    }
    ctl->seen = n + 1;
    if (can_return)
        siglongjmp (jb, 1);
    _exit (77);
}

static void
on_info (int s, siginfo_t *i, void *c)
{
    seen (s, i->si_addr);
}

static void
on_plain (int s)
{
    seen (s, ctl->want);
}

static volatile int sink;

__attribute__ ((noinline)) static int
deeper (int n)
{
    volatile char *p = (volatile char *)__builtin_alloca (frame);
    int r;

    if (n > 100000) {
        ctl->stage = 2;
        _exit (0);
    }
    p[0] = n;
    p[frame - 1] = n;
    ctl->lo = (char *)p - 8 * PAGE;
    r = deeper (n + 1);
    return r + p[frame / 2];
}

/* the highest page below the stack in use that cannot be read */
static unsigned char *
guard (void)
{
    uintptr_t p = (uintptr_t)__builtin_frame_address (0) / PAGE * PAGE;
    int v[2];

    if (pipe (v))
        _exit (9);
    for (int i = 0; i < 2000; i++, p -= PAGE)
        if (write (v[1], (void *)p, 1) != 1) {
            close (v[0]);
            close (v[1]);
            return (unsigned char *)p;
        }
    _exit (9);
}

static void
fault (void)
{
    static volatile int again;

    again = faults;
    if (can_return)
        sigsetjmp (jb, 1);
    if (!again--) {
        ctl->stage = 2;
        return;
    }
    ctl->stage = 1;
    switch (kind) {
    case OVER:
        ctl->hi = __builtin_frame_address (0);
        sink = deeper (1);
        break;
    case GUARD:
        ctl->want = guard () + off;
        *(volatile char *)ctl->want = 1;
        break;
    case NUL:
        ctl->want = (void *)(uintptr_t)(off % 8 * 8);
        *(volatile char *)ctl->want = 1;
        break;
    default:
        ctl->want = pages[kind] + off;
        *(volatile char *)ctl->want = 1;
    }
    ctl->stage = 2;
    _exit (0);
}

struct Worker {
    std::thread th;
    std::mutex m;
    std::condition_variable c;
    std::function<void ()> job;

    void
    loop ()
    {
        std::unique_lock<std::mutex> l (m);
        for (;;) {
            c.wait (l, [&] { return (bool)job; });
            job ();
            job = nullptr;
            c.notify_all ();
        }
    }
    void
    run (std::function<void ()> f)
    {
        std::unique_lock<std::mutex> l (m);
        job = std::move (f);
        c.notify_all ();
        c.wait (l, [&] { return !job; });
    }
};

struct Plan {
    int nthreads, victim;
    int own[2], flags[2]; /* SEGV, BUS: 0 none, 1 with details, 2 without */
    bool altstack;
    struct Step {
        int thread, what, n, m;
    };
    std::vector<Step> steps;
    int ntasks, vtask, stack[6], laps;
    bool wait[6];
};

static void
nothing (void *d)
{
    for (long i = (long)d; i-- > 0;)
        hev_task_yield (HEV_TASK_YIELD);
}

static void
sleeper (void *d)
{
    hev_task_sleep (1000);
}

static void
faulting (void *d)
{
    for (long i = (long)d; i-- > 0;)
        hev_task_yield (HEV_TASK_YIELD);
    fault ();
}

static void
in_child (const Plan *p)
{
    static char mystack[65536];
    static Worker w[4];

    for (int i = 0; i < 2; i++) {
        struct sigaction sa;
        if (!p->own[i])
            continue;
        memset (&sa, 0, sizeof (sa));
        sa.sa_flags = p->flags[i] | SA_ONSTACK;
        if (p->own[i] == 1) {
            sa.sa_flags |= SA_SIGINFO;
            sa.sa_sigaction = on_info;
        } else {
            sa.sa_handler = on_plain;
        }
        sigaction (i ? SIGBUS : SIGSEGV, &sa, NULL);
    }
    if (p->altstack) {
        stack_t ss;
        memset (&ss, 0, sizeof (ss));
        ss.ss_sp = mystack;
        ss.ss_size = sizeof (mystack);
        sigaltstack (&ss, NULL);
    }
    for (int i = 1; i < p->nthreads; i++)
        w[i].th = std::thread ([i] { w[i].loop (); });
    auto on = [&] (int i, std::function<void ()> f) {
        if (i)
            w[i].run (f);
        else
            f ();
    };
    for (auto &s : p->steps)
        on (s.thread, [&] {
            switch (s.what) {
            case 0:
                if (hev_task_system_init ())
                    _exit (9);
                break;
            case 1:
                hev_task_system_fini ();
                break;
            case 2:
                for (int i = 0; i < s.n; i++)
                    hev_task_run (hev_task_new (i & 1 ? -1 : 16384), nothing,
                                  (void *)(long)(i + s.m));
                hev_task_system_run ();
                break;
            }
        });
    on (p->victim, [&] {
        if (where != IN_TASK) {
            if (where == OUTSIDE) {
                /* tasks that are not running */
                for (int i = 0; i < p->ntasks; i++) {
                    HevTask *t = hev_task_new (p->stack[i]);
                    if (p->wait[i])
                        hev_task_run (t, nothing, (void *)1);
                    ctl->others[ctl->nothers++] = t;
                }
            }
            fault ();
            return;
        }
        for (int i = 0; i < p->ntasks; i++) {
            HevTask *t = hev_task_new (p->stack[i]);
            if (i == p->vtask)
                ctl->task = t;
            else
                ctl->others[ctl->nothers++] = t;
            hev_task_run (t,
                          i == p->vtask  ? faulting
                          : p->wait[i] ? sleeper
                                       : nothing,
                          (void *)(long)(i == p->vtask ? p->laps : 50));
        }
        hev_task_system_run ();
    });
    ctl->stage |= 4;
    _exit (0);
}

static bool
mentions (const std::string &s, const void *p)
{
    char b[40];
    size_t at = 0, n;

    n = snprintf (b, sizeof (b), "%p", p);
    while ((at = s.find (b, at)) != std::string::npos) {
        if (!isxdigit ((unsigned char)s[at + n]))
            return true;
        at++;
    }
    return false;
}

void
prop_case (void)
{
    static const int fl[] = { 0, SA_NODEFER, SA_RESTART };
    bool guarded = strcmp (vt_variant (), "nosod") != 0;
    int open[4] = { 0 }, st = 0, nsteps, err, extra = 0;
    std::string out;
    Plan p;
    pid_t pid;

    ts_env_clear ();
    ts_clock ();
    p.nthreads = vt_weight ({ 4, 2, 1 }) + 1;
    p.victim = vt_u (p.nthreads);
    for (int i = 0; i < 2; i++) {
        p.own[i] = vt_u (3);
        p.flags[i] = fl[vt_u (3)];
    }
    p.altstack = vt_bool ();
    where = vt_weight ({ 5, 2, 2, 1 });
    kind = vt_u (NKIND);
    if (where != IN_TASK && kind < NUL)
        kind = NUL;
    if (!guarded && kind < NUL)
        kind = NUL;
    frame = vt_range (16, 3000);
    off = vt_pick ({ 0, 1, 8, 4095, 4088, 2048 });
    if (vt_bool ())
        off = vt_u (PAGE);
    int sig = kind == BUS ? 1 : 0;
    can_return = kind > OVER && p.own[sig] && vt_chance (1, 3);
    faults = can_return ? vt_range (1, 4) : 1;
    nsteps = vt_u (10);
    for (int i = 0; i < nsteps; i++) {
        int t = vt_u (p.nthreads);
        if (!open[t]) {
            open[t] = 1;
            p.steps.push_back ({ t, 0, 0, 0 });
        } else if (vt_bool ()) {
            open[t] = 0;
            p.steps.push_back ({ t, 1, 0, 0 });
        } else {
            p.steps.push_back ({ t, 2, (int)vt_u (4), (int)vt_u (3) });
        }
    }
    if (where == BARE) {
        /* a system exists, but not on this thread */
        if (p.nthreads < 2)
            p.nthreads = 2;
        int o = (p.victim + 1) % p.nthreads;
        if (open[p.victim])
            p.steps.push_back ({ p.victim, 1, 0, 0 });
        if (!open[o])
            p.steps.push_back ({ o, 0, 0, 0 });
    } else if (where == ENDED) {
        for (int i = 0; i < p.nthreads; i++)
            if (open[i])
                p.steps.push_back ({ i, 1, 0, 0 });
    } else if (!open[p.victim]) {
        p.steps.push_back ({ p.victim, 0, 0, 0 });
    }
    p.ntasks = vt_range (1, 6);
    p.vtask = vt_u (p.ntasks);
    p.laps = vt_u (4);
    for (int i = 0; i < p.ntasks; i++) {
        p.stack[i] = vt_pick ({ -1, 16384, 16385, 20000, 40960, 65536 });
        p.wait[i] = vt_bool ();
    }
    vt_sig (kind * 16 + where * 4 + p.victim);
    vt_sig (p.own[0] * 100 + p.own[1] * 10 + can_return);
    vt_sig (off * 4096 + frame);
    for (auto &s : p.steps)
        vt_sig (s.thread * 8 + s.what);
    vt_sig (p.ntasks * 8 + p.vtask);
    vt_log ("%s %s on thread %d of %d, handlers %d %d, %d times, off %zu",
            kinds[kind],
            where == IN_TASK   ? "in a task"
            : where == OUTSIDE ? "outside tasks"
            : where == BARE    ? "without a system"
                               : "after all systems",
            p.victim, p.nthreads, p.own[0], p.own[1], faults, off);
    for (auto &s : p.steps)
        vt_log ("  thread %d: %s", s.thread,
                s.what == 0   ? "init"
                : s.what == 1 ? "fini"
                              : "run");
    ctl = (Ctl *)mmap (NULL, sizeof (Ctl), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANON, -1, 0);
    err = memfd_create ("report", 0);
    if (ctl == MAP_FAILED || err < 0)
        vt_fail ("harness: no memory");
    pid = fork ();
    if (pid < 0)
        vt_fail ("harness: no process");
    if (pid == 0) {
        struct itimerval it = { { 0, 0 }, { 4, 0 } };
        int file = memfd_create ("short", 0);
        setitimer (ITIMER_PROF, &it, NULL);
        /* one page each with room around it */
        for (int k = NOACCESS; k <= BUS; k++) {
            unsigned char *a = (unsigned char *)mmap (
                NULL, 3 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANON, -1, 0);
            pages[k] = a + PAGE;
            if (k == RDONLY)
                mprotect (pages[k], PAGE, PROT_READ);
            if (k == BUS)
                mmap (pages[k], PAGE, PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_FIXED, file, 0);
        }
        dup2 (err, 2);
        in_child (&p);
    }
    while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
        ;
    if (WIFSIGNALED (st) && WTERMSIG (st) == SIGKILL)
        vt_fail ("harness: killed");
    if (WIFEXITED (st) && (WEXITSTATUS (st) == 9 || WEXITSTATUS (st) == 3))
        vt_fail ("inside: something failed before the fault");
    {
        char b[4096];
        ssize_t r;
        lseek (err, 0, SEEK_SET);
        while ((r = read (err, b, sizeof (b))) > 0)
            out.append (b, r);
        close (err);
    }
    vt_log ("status %#x, stage %d, handler ran %d times, report: %s", st,
            ctl->stage, ctl->seen, out.c_str ());
    VT_CHECK (!(WIFSIGNALED (st) && WTERMSIG (st) == SIGPROF),
              "hang: the process did not end after a fault");
    VT_CHECK (ctl->stage, "lost: the fault was not reached (status %#x)", st);
    if (p.own[sig]) {
        VT_CHECK (ctl->seen == faults,
                  "handler: it ran %d times for %d faults (status %#x)",
                  ctl->seen, faults, st);
        for (int i = 0; i < faults; i++) {
            VT_CHECK (ctl->sig[i] == (sig ? SIGBUS : SIGSEGV),
                      "handler: called for signal %d", ctl->sig[i]);
            if (p.own[sig] != 1)
                continue;
            if (ctl->want || kind == NUL)
                VT_CHECK (ctl->addr[i] == ctl->want,
                          "handler: told address %p, the fault was at %p",
                          ctl->addr[i], ctl->want);
            else
                VT_CHECK (ctl->addr[i] >= ctl->lo && ctl->addr[i] <= ctl->hi,
                          "handler: told address %p, the fault was between %p "
                          "and %p",
                          ctl->addr[i], ctl->lo, ctl->hi);
        }
        VT_CHECK (WIFEXITED (st) && WEXITSTATUS (st) == (can_return ? 0 : 77),
                  "handler: the process did not go on as the handler decided "
                  "(status %#x)",
                  st);
        VT_CHECK (!can_return || ctl->stage == 6, "handler: the program did "
                  "not go on");
    } else {
        VT_CHECK (WIFSIGNALED (st) && !ctl->seen,
                  "survived: the process outlived a fault "
                                    "(status %#x)",
                  st);
        VT_CHECK (WTERMSIG (st) == (sig ? SIGBUS : SIGSEGV),
                  "signal: the process ended with signal %d", WTERMSIG (st));
    }
    if (kind < NUL) {
        VT_CHECK (mentions (out, ctl->task), "report: an overflow was not "
                                             "reported with its task");
        extra++;
    } else {
        VT_CHECK (out.empty (), "report: a fault that is no overflow was "
                                "reported as one");
    }
    for (int i = 0; i < ctl->nothers; i++)
        VT_CHECK (!mentions (out, ctl->others[i]),
                  "report: a task was reported that did not overflow");
    vt_nontrivial ();
    vt_label (kinds[kind]);
    vt_label ("passed on", p.own[sig] != 0);
    vt_label ("outside tasks", where == OUTSIDE);
    vt_label ("without a system on the thread", where == BARE);
    vt_label ("after all systems", where == ENDED);
    vt_label ("overlapping systems", p.nthreads > 1);
    vt_sample ("%s, threads=%d steps=%zu handlers=%d%d faults=%d", kinds[kind],
               p.nthreads, p.steps.size (), p.own[0], p.own[1], faults);
    munmap (ctl, sizeof (Ctl));
}
