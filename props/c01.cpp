// VARIANTS default:1000000:5000000 heap:300000:1500000 noslice:100000:500000 asanheap:20000:150000 schedclk:100000:500000
#include "ts.hpp"
#include <sys/eventfd.h>
#include <unistd.h>

const char *prop_id = "C01";
const char *prop_rule =
    "A case is 1-3 rounds in one system; in each round generated tasks start "
    "tasks, yield, wait, sleep, wake each other, wait on descriptors, change "
    "priority, recurse, exit early or return, judged online against a model of "
    "who may run. Non-trivial: at least 3 tasks ran, one was woken from a wait "
    "and one was started by another task. Distinct by the executed trace.";

struct T {
    HevTask *h;
    int id, runs = 0, done = 0;
    void *data;
    int waiting = 0;  /* in a plain wait */
    int sleeping = 0; /* in a sleep */
    int woken = 0;    /* a wake-up reached it while waiting or sleeping */
    int fdwait = 0;
    int poked = 0; /* its descriptor is readable */
    int stuck = 0;
    uint64_t stuck_at = 0;
    int efd = -1;
    bool usefd;
    int len;
    uint64_t step = 0;
};
struct St {
    std::vector<T *> t;
    int started = 0, finished = 0, wakes = 0, nested = 0, exits = 0;
    int budget;
    int round = 0;
    HevTask *janitor = nullptr;
    uint64_t sw = 0;
    bool running = false;
    bool crowd = false; /* hundreds of tasks with short programs */
};
static St *S;

static void entry (void *d);

static T *
mk (void)
{
    T *t = new T;
    t->id = S->t.size ();
    t->usefd = vt_chance (1, 4);
    t->len = vt_range (0, S->crowd ? 4 : 25);
    t->data = t;
    t->h = ts_new ();
    hev_task_set_priority (t->h, vt_bool () ? 8 : vt_range (0, 15));
    S->t.push_back (t);
    return t;
}

static void
start (T *t)
{
    S->started++;
    hev_task_ref (t->h); /* keep the handle for wake-ups */
    hev_task_run (t->h, entry, t->data);
}

/* a task that is done must not be woken; anything else may be */
static void
wake (T *o)
{
    vt_log ("   wake %d (w%d s%d)", o->id, o->waiting, o->sleeping);
    if (o->done)
        return;
    if (o->waiting || o->sleeping || o->fdwait) {
        o->woken = 1;
        S->wakes++;
    }
    hev_task_wakeup (o->h);
}

static void
poke (T *o)
{
    uint64_t one = 1;
    if (o->efd >= 0 && write (o->efd, &one, 8) == 8)
        o->poked = 1;
}

static void
check_self (T *t, uint64_t step, const char *where)
{
    VT_CHECK (hev_task_self () == t->h,
              "self: task %d is not the current task after %s", t->id, where);
    VT_CHECK (t->step == step, "resume: task %d resumed at the wrong place",
              t->id);
    VT_CHECK (!t->done, "again: finished task %d runs again", t->id);
    VT_CHECK (S->running, "loop: task %d runs outside the run loop", t->id);
    S->sw++;
}

static void program (T *t, int depth);

static void __attribute__ ((noinline))
recurse (T *t, int depth)
{
    volatile char pad[200];
    pad[0] = depth;
    pad[199] = t->id;
    program (t, depth + 1);
    VT_CHECK (pad[0] == (char)depth && pad[199] == (char)t->id,
              "locals: changed across suspension");
}

static void
fin (T *t)
{
    if (t->efd >= 0) {
        hev_task_del_fd (t->h, t->efd);
        close (t->efd);
        t->efd = -1;
    }
    t->done = 1;
    S->finished++;
}

static void
program (T *t, int depth)
{
    int n = 0;

    while (vt_more (n, t->len, 10)) {
        int op = vt_weight ({ 5, 4, 3, 6, 2, 2, 2, 1, 1, 1 });
        uint64_t step = ++t->step;
        n++;
        vt_sig (t->id * 16 + op);
        vt_log ("t%d op %d", t->id, op);
        switch (op) {
        case 0:
            hev_task_yield (HEV_TASK_YIELD);
            check_self (t, step, "yield");
            break;
        case 1: {
            t->waiting = 1;
            t->woken = 0;
            hev_task_yield (HEV_TASK_WAITIO);
            check_self (t, step, "wait");
            VT_CHECK (t->woken || t->efd >= 0,
                      "spurious: task %d resumed from a wait nobody ended",
                      t->id);
            t->waiting = 0;
            t->woken = 0;
            break;
        }
        case 2: {
            uint64_t t0 = vos_now ();
            int ms = vt_range (0, 4);
            unsigned r;
            t->sleeping = 1;
            t->woken = 0;
            r = hev_task_sleep (ms);
            check_self (t, step, "sleep");
            if (!t->woken && t->efd < 0)
                VT_CHECK (vos_now () >= t0 + ms * MS,
                          "sleep: task %d slept too short", t->id);
            t->sleeping = 0;
            t->woken = 0;
            (void)r;
            break;
        }
        case 3:
            wake (S->t[vt_u (S->t.size ())]);
            break;
        case 4:
            if (S->budget > 0) {
                S->budget--;
                S->nested++;
                start (mk ());
                check_self (t, step, "start");
            }
            break;
        case 5:
            hev_task_set_priority (S->t[vt_u (S->t.size ())]->h,
                                   vt_range (0, 15));
            break;
        case 6:
            if (t->usefd) {
                uint64_t v;
                if (t->efd < 0) {
                    t->efd = eventfd (0, EFD_NONBLOCK);
                    VT_CHECK (hev_task_add_fd (t->h, t->efd, POLLIN) == 0,
                              "fd: registration failed");
                }
                t->fdwait = 1;
                while (read (t->efd, &v, 8) < 0) {
                    hev_task_yield (HEV_TASK_WAITIO);
                    check_self (t, step, "fd wait");
                }
                t->fdwait = 0;
                t->poked = 0;
            } else {
                poke (S->t[vt_u (S->t.size ())]);
            }
            break;
        case 7:
            if (depth < 6)
                recurse (t, depth);
            break;
        case 8:
            /* starting a started task changes nothing */
            {
                T *o = S->t[vt_u (S->t.size ())];
                if (!o->done)
                    hev_task_run (o->h, entry, NULL);
            }
            break;
        case 9:
            if (vt_chance (1, 4)) {
                S->exits++;
                fin (t);
                hev_task_exit ();
                vt_fail ("exit: returned");
            }
            break;
        }
    }
}

static void
entry (void *d)
{
    T *t = (T *)d;

    VT_CHECK (d != NULL, "data: a task ran with the wrong data");
    t->runs++;
    VT_CHECK (t->runs == 1, "again: task %d ran %d times", t->id, t->runs);
    VT_CHECK (hev_task_get_data (t->h) == d, "data: wrong data reported");
    check_self (t, 0, "start");
    program (t, 0);
    fin (t);
}

/* wakes the waiting tasks nobody else wakes; never repeats a wake-up, so a
 * task whose wake-up got lost stays where it is while everything else naps */
static void
janitor (void)
{
    while (S->finished < S->started) {
        hev_task_sleep (vt_bool () ? 20 : 5);
        for (T *o : S->t) {
            if (o->done)
                continue;
            if (o->fdwait && !o->poked) {
                poke (o);
            } else if (o->waiting && !o->woken) {
                wake (o);
            } else if (o->fdwait || o->waiting || !o->runs) {
                if (o->stuck_at != o->step)
                    o->stuck = 0;
                o->stuck_at = o->step;
                VT_CHECK (++o->stuck < 50, "lost: task %d %s", o->id,
                          o->runs ? "was woken but does not run" :
                                    "was started but does not run");
            }
        }
    }
}

void
prop_case (void)
{
    St st;
    int rounds = 1 + vt_weight ({ 4, 2, 1 });
    int total = 0, waked = 0, nested = 0;

    S = &st;
    ts_clock ();
    ts_init ();
    for (int r = 0; r < rounds; r++) {
        int n = vt_range (0, 5);
        st.budget = vt_range (0, 6);
        st.crowd = vt_chance (1, 400);
        if (st.crowd) {
            n = vt_range (60, 400);
            st.budget = vt_range (0, 300);
            vt_label ("crowds");
        }
        for (T *t : st.t) {
            VT_CHECK (t->done, "loop: ended before task %d finished", t->id);
            hev_task_unref (t->h);
            delete t;
        }
        st.t.clear ();
        st.started = st.finished = 0;
        for (int i = 0; i < n; i++)
            start (mk ());
        st.running = true;
        if (n) {
            st.janitor = ts_new ();
            ts_start (st.janitor, janitor);
        }
        vt_log ("-- round %d: %d tasks", r, n);
        ts_run ();
        st.running = false;
        VT_CHECK (hev_task_self () == NULL,
                  "loop: a current task is reported outside the run loop");
        for (T *t : st.t)
            VT_CHECK (t->done && t->runs == 1,
                      "loop: ended while task %d had not finished", t->id);
        total += st.t.size ();
    }
    for (T *t : st.t) {
        hev_task_unref (t->h);
        delete t;
    }
    ts_fini ();
    if (total >= 3 && st.wakes && st.nested)
        vt_nontrivial ();
    vt_label ("tasks", total);
    vt_label ("wakes of blocked", st.wakes);
    vt_label ("early exits", st.exits);
    vt_sample ("rounds=%d tasks=%d started-by-task=%d wakes=%d exits=%d "
               "switches=%llu",
               rounds, total, st.nested, st.wakes, st.exits,
               (unsigned long long)st.sw);
}
