// VARIANTS default:1200000:6000000 heap:500000:2500000 asan:40000:250000
#include "ts.hpp"

const char *prop_id = "C08";
const char *prop_rule =
    "A case is 2-8 tasks that wait, wait with timeout, signal and broadcast on "
    "1-2 condition variables with their mutexes, sleep, yield and wake each "
    "other spuriously; successes are matched against the signals whose waiters "
    "they were among. Non-trivial: at least two tasks waited on one condition "
    "at once and one signal or broadcast released someone. Distinct by the "
    "executed trace.";

struct Inst { /* one call of wait */
    int task, cond;
    bool timed, bc = false;
    int state = 0; /* 0 waiting, 1 returned success, 2 returned failure */
    uint64_t start, ms;
    int hits = 0;
};
struct T {
    HevTask *h;
    int id, done = 0, len;
    int held = -1; /* mutex */
    Inst *in = nullptr;
};
struct C {
    HevTaskCond c;
    HevTaskMutex m;
    int owner = -1;
    std::vector<Inst *> waits;               /* since the last broadcast */
    std::vector<std::vector<Inst *>> tokens; /* candidate sets of signals */
};
struct St {
    std::vector<T *> t;
    C c[2];
    int nc;
    bool crowd;
    uint64_t steps = 0;
    int multi = 0, released = 0, timeouts = 0, bcasts = 0;
};
static St *S;

/* can all of `left` be given distinct partners? */
static bool
match (const std::vector<std::vector<int>> &adj, int nr)
{
    std::vector<int> of (nr, -1);
    std::function<bool (int, std::vector<char> &)> aug =
        [&] (int l, std::vector<char> &seen) {
            for (int r : adj[l])
                if (!seen[r]) {
                    seen[r] = 1;
                    if (of[r] < 0 || aug (of[r], seen)) {
                        of[r] = l;
                        return true;
                    }
                }
            return false;
        };
    for (size_t l = 0; l < adj.size (); l++) {
        std::vector<char> seen (nr, 0);
        if (!aug (l, seen))
            return false;
    }
    return true;
}

static void
feasible (C *c, const char *what)
{
    std::vector<std::vector<int>> a (c->tokens.size ()), b;
    std::vector<Inst *> ok;

    for (size_t k = 0; k < c->tokens.size (); k++)
        for (Inst *i : c->tokens[k])
            for (size_t j = 0; j < c->waits.size (); j++)
                if (c->waits[j] == i && i->state != 2)
                    a[k].push_back (j);
    VT_CHECK (match (a, c->waits.size ()),
              "lost: a signal released nobody (%s)", what);
    for (Inst *i : c->waits)
        if (i->state == 1 && !i->bc) {
            std::vector<int> v;
            for (size_t k = 0; k < c->tokens.size (); k++)
                for (Inst *x : c->tokens[k])
                    if (x == i)
                        v.push_back (k);
            b.push_back (v);
        }
    VT_CHECK (match (b, c->tokens.size ()),
              "unsignalled: more waits succeeded than signals allow (%s)", what);
}

static int
blocked (C *c)
{
    int n = 0;
    for (Inst *i : c->waits)
        n += i->state == 0 && !i->bc;
    return n;
}

static int
outstanding (C *c)
{
    int n = c->tokens.size ();
    for (Inst *i : c->waits)
        n -= i->state == 1 && !i->bc;
    return n;
}

static void
do_signal (C *c)
{
    uint64_t st = S->steps;
    vt_log ("  signal: blocked %d outstanding %d", blocked (c), outstanding (c));
    if (blocked (c) - outstanding (c) > 0) {
        std::vector<Inst *> v;
        for (Inst *i : c->waits)
            if (i->state == 0 && !i->bc)
                v.push_back (i);
        c->tokens.push_back (v);
        S->released++;
    }
    VT_CHECK (hev_task_cond_signal (&c->c) == 0, "result: signal failed");
    VT_CHECK (st == S->steps, "blocked: signal suspended the task");
}

static void
do_broadcast (C *c)
{
    uint64_t st = S->steps;
    feasible (c, "broadcast");
    vt_log ("  broadcast: blocked %d", blocked (c));
    std::vector<Inst *> keep;
    for (Inst *i : c->waits)
        if (i->state == 0) {
            i->bc = true;
            S->bcasts++;
            keep.push_back (i);
        }
    if (!keep.empty ())
        S->released++;
    c->waits = keep;
    c->tokens.clear ();
    VT_CHECK (hev_task_cond_broadcast (&c->c) == 0, "result: broadcast failed");
    VT_CHECK (st == S->steps, "blocked: broadcast suspended the task");
}

static void
do_wait (T *t, int k, bool timed)
{
    C *c = &S->c[k];
    Inst *i = new Inst;
    int r, others;

    i->task = t->id;
    i->cond = k;
    i->timed = timed;
    i->start = vos_now ();
    i->ms = timed ? vt_pick ({ 0, 1, 2, 5, 10, 50 }) : 0;
    if (timed && vt_chance (1, 20))
        i->ms = vt_pick ({ 0x7fffffffu, 0x80000000u, 0x80000005u, 0xffffffffu,
                           70000u });
    others = blocked (c);
    if (others)
        S->multi++;
    c->waits.push_back (i);
    c->owner = -1;
    t->in = i;
    S->steps++;
    vt_log ("t%d waits on %d timed %d %llu", t->id, k, timed,
            (unsigned long long)i->ms);
    r = timed ? hev_task_cond_timedwait (&c->c, &c->m, i->ms)
              : hev_task_cond_wait (&c->c, &c->m);
    S->steps++;
    t->in = nullptr;
    vt_log ("t%d wait returns %d at %llu", t->id, r,
            (unsigned long long)(vos_now () - i->start));
    VT_CHECK (hev_task_self () == t->h, "self: wrong current task");
    VT_CHECK (c->owner < 0, "mutex: wait returned while task %d holds it",
              c->owner);
    c->owner = t->id;
    VT_CHECK (hev_task_mutex_trylock (&c->m) != 0,
              "mutex: wait returned without the mutex");
    if (r == 0) {
        i->state = 1;
        vt_sig (0x100 + t->id);
        feasible (c, "success");
    } else {
        uint64_t el = vos_now () - i->start;
        VT_CHECK (timed, "result: untimed wait returned %d", r);
        VT_CHECK (!i->bc, "lost: a wait reached by a broadcast timed out");
        VT_CHECK (el + (1 + i->hits) * MS > i->ms * MS,
                  "early: wait of %llu ms failed after %llu ns",
                  (unsigned long long)i->ms, (unsigned long long)el);
        i->state = 2;
        S->timeouts++;
        vt_sig (0x200 + t->id);
        feasible (c, "timeout");
    }
}

static void
body (T *t)
{
    int n = 0;

    S->steps++;
    while (vt_more (n, t->len, 10)) {
        n++;
        int op = S->crowd ? vt_weight ({ 30, 8, 2, 1, 1, 1, 1, 1 })
                          : vt_weight ({ 5, 4, 4, 2, 2, 2, 2, 3 });
        vt_sig (t->id * 16 + op);
        switch (op) {
        case 0:
        case 1: {
            int k = (int)vt_u (S->nc);
            C *c = &S->c[k];
            if (hev_task_mutex_lock (&c->m) != 0)
                vt_fail ("mutex: lock failed");
            S->steps++;
            VT_CHECK (c->owner < 0, "mutex: two owners");
            c->owner = t->id;
            if (vt_chance (1, 3))
                hev_task_yield (HEV_TASK_YIELD);
            do_wait (t, k, op == 1);
            if (vt_chance (1, 4)) {
                hev_task_sleep (vt_range (1, 4));
                S->steps++;
            }
            c->owner = -1;
            hev_task_mutex_unlock (&c->m);
            break;
        }
        case 2:
        case 3: {
            C *c = &S->c[vt_u (S->nc)];
            bool with = vt_bool ();
            if (with) {
                hev_task_mutex_lock (&c->m);
                S->steps++;
                VT_CHECK (c->owner < 0, "mutex: two owners");
                c->owner = t->id;
            }
            vt_log ("t%d %s", t->id, op == 2 ? "signal" : "broadcast");
            if (op == 2)
                do_signal (c);
            else
                do_broadcast (c);
            if (with) {
                if (vt_chance (1, 3)) {
                    hev_task_sleep (vt_range (1, 4));
                    S->steps++;
                }
                c->owner = -1;
                hev_task_mutex_unlock (&c->m);
            }
            break;
        }
        case 4:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 5:
            hev_task_sleep (vt_range (1, 8));
            break;
        case 6:
            hev_task_set_priority (t->h, vt_range (0, 15));
            break;
        case 7: {
            T *o = S->t[vt_u (S->t.size ())];
            if (o->done)
                break;
            if (o->in)
                o->in->hits++;
            hev_task_wakeup (o->h);
            break;
        }
        }
        S->steps++;
    }
    t->done = 1;
    S->steps++;
}

static void
janitor (void)
{
    uint64_t last = ~0ull;

    for (;;) {
        bool all = true;
        for (T *t : S->t)
            all &= t->done;
        if (all)
            return;
        if (last == S->steps) {
            /* nothing happened for longer than anyone sleeps or waits */
            for (int k = 0; k < S->nc; k++) {
                C *c = &S->c[k];
                VT_CHECK (outstanding (c) == 0,
                          "lost: a signalled waiter never returned");
                for (Inst *i : c->waits)
                    if (i->state == 0) {
                        VT_CHECK (!i->bc, "lost: a broadcast waiter never "
                                          "returned");
                        VT_CHECK (!i->timed || i->ms > 200, "stuck: a timed wait never ended");
                    }
                do_broadcast (c);
            }
            S->steps++;
        }
        last = S->steps;
        while (hev_task_sleep (200) != 0)
            ;
    }
}

void
prop_case (void)
{
    St st;
    bool crowd = st.crowd = vt_chance (1, 1000);
    int n = crowd ? vt_range (20, 80) : vt_range (2, 8);

    S = &st;
    ts_clock ();
    ts_init ();
    st.nc = vt_range (1, 2);
    for (int i = 0; i < st.nc; i++) {
        hev_task_mutex_init (&st.c[i].m);
        memset (&st.c[i].c, 0x5a, sizeof (st.c[i].c));
        VT_CHECK (hev_task_cond_init (&st.c[i].c) == 0, "result: init failed");
    }
    for (int i = 0; i < n; i++) {
        T *t = new T;
        t->id = i;
        t->len = vt_range (1, crowd ? 4 : 14);
        t->h = ts_new ();
        hev_task_set_priority (t->h, vt_bool () ? 8 : vt_range (0, 15));
        st.t.push_back (t);
    }
    for (T *t : st.t)
        ts_start (t->h, [t] { body (t); });
    ts_go (janitor, 8);
    ts_run ();
    for (T *t : st.t)
        VT_CHECK (t->done, "lost: task %d did not finish", t->id);
    for (int k = 0; k < st.nc; k++)
        feasible (&st.c[k], "end");
    ts_fini ();
    if (st.multi && st.released)
        vt_nontrivial ();
    vt_label ("waits joining other waiters", st.multi);
    vt_label ("releases", st.released);
    vt_label ("timeouts", st.timeouts);
    vt_sample ("tasks=%d conds=%d shared waits=%d releases=%d timeouts=%d", n,
               st.nc, st.multi, st.released, st.timeouts);
    for (T *t : st.t)
        delete t;
}
