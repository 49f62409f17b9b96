// VARIANTS default:1500000:9000000 heap:600000:4000000
#include "ts.hpp"

const char *prop_id = "C03";
const char *prop_rule =
    "A case is up to 12 tasks with generated priorities that yield, wait, "
    "sleep, wake and start each other, change priorities and end; before every "
    "switch a reference scheduler predicts which task runs next. Non-trivial: "
    "at least 3 tasks with two different priorities and 10 predicted switches, "
    "among them one to a task that was woken or started while others were "
    "runnable. Distinct by the sequence of running tasks.";

enum { STOP, RUN, WAIT, SLEEP };
struct T {
    HevTask *h;
    int id, st = STOP;
    uint64_t key = 0, seq = 0, deadline = 0;
    int prio = 8, next = 8;
    int len;
};
struct St {
    std::vector<T *> t;
    T *cur = nullptr, *expect = nullptr;
    uint64_t seq = 0;
    int budget, switches = 0, special = 0;
    uint64_t ndead = 0;
    bool multi = false;
    bool crowd = false; /* hundreds of tasks with short programs */
    bool burst = false; /* thousands of yields */
    std::vector<int> trace;
};
static St *S;

static uint64_t
minkey (void)
{
    uint64_t m = UINT64_MAX;
    for (T *t : S->t)
        if (t->st == RUN && t->key < m)
            m = t->key;
    return m == UINT64_MAX ? 0 : m;
}

static void
queue (T *t)
{
    t->st = RUN;
    t->prio = t->next;
    t->seq = ++S->seq;
}

static int
count (int st)
{
    int n = 0;
    for (T *t : S->t)
        n += t->st == st;
    return n;
}

/* the switch away from the current task: who runs next? */
static void
predict (void)
{
    T *b = nullptr;

    for (T *t : S->t)
        if (t->st == RUN &&
            (!b || t->key < b->key || (t->key == b->key && t->seq < b->seq)))
            b = t;
    if (!b) {
        for (T *t : S->t)
            if (t->st == SLEEP && (!b || t->deadline < b->deadline))
                b = t;
        if (b) {
            /* wakes with nothing runnable: begins at its own priority */
            b->key = b->next; /* set when it suspended */
            b->key = b->prio;
            queue (b);
        }
    }
    S->expect = b;
    S->switches++;
}

static void
arrive (T *t)
{
    VT_CHECK (S->expect == t,
              "order: task %d runs but task %d has the lowest charge", t->id,
              S->expect ? S->expect->id : -1);
    S->cur = t;
    if (S->trace.size () < 60)
        S->trace.push_back (t->id);
    vt_sig (t->id + 1);
}

static void entry (void *d);

static T *
mk (void)
{
    T *t = new T;
    t->id = S->t.size ();
    t->len = vt_range (0, S->crowd ? 8 : 30);
    t->h = ts_new (-1);
    hev_task_ref (t->h);
    if (vt_chance (3, 4)) {
        int p = vt_pick ({ 0, 1, 2, 3, 5, 8, 13, 15, -3, 16, 400 });
        hev_task_set_priority (t->h, p);
        t->next = p < 0 ? 0 : p > 15 ? 15 : p;
    }
    if (!S->t.empty () && S->t[0]->next != t->next)
        S->multi = true;
    S->t.push_back (t);
    return t;
}

static void
start (T *t)
{
    t->key = t->next;
    if (S->cur)
        t->key += minkey ();
    queue (t);
    S->special += S->cur != nullptr;
    vt_log ("start %d prio %d key %llu", t->id, t->next,
            (unsigned long long)t->key);
    hev_task_run (t->h, entry, t);
}

static void
wake (T *t)
{
    if (t->st == STOP)
        return;
    vt_log ("t%d wakes %d", S->cur->id, t->id);
    if (t->st == WAIT || t->st == SLEEP) {
        t->key = t->prio + minkey ();
        queue (t);
        S->special++;
    }
    hev_task_wakeup (t->h);
}

/* never let the last awake task go to sleep for ever */
static void
keep_alive (void)
{
    if (count (RUN) > 1 || count (SLEEP) || !count (WAIT))
        return;
    for (T *t : S->t)
        if (t->st == WAIT) {
            wake (t);
            return;
        }
}

static void
entry (void *d)
{
    T *t = (T *)d;
    int n = 0;

    arrive (t);
    while (vt_more (n, t->len, 15)) {
        n++;
        switch (vt_weight ({ 8, 3, 2, 5, 2, 3 })) {
        case 0: {
            int k = 1;
            if (S->burst && vt_chance (1, 4))
                k = vt_pick ({ 100, 400, 3000 });
            vt_log ("t%d yields", t->id);
            while (k--) {
                t->key += t->prio;
                queue (t);
                predict ();
                hev_task_yield (HEV_TASK_YIELD);
                arrive (t);
            }
            break;
        }
        case 1:
            if (count (RUN) > 1 || count (SLEEP)) {
                vt_log ("t%d waits", t->id);
                t->st = WAIT;
                t->prio = t->next; /* its priority as of now counts */
                predict ();
                hev_task_yield (HEV_TASK_WAITIO);
                arrive (t);
            }
            break;
        case 2: {
            uint64_t ms = 5 + S->ndead++ * 7 + vt_u (3);
            vt_log ("t%d sleeps %d", t->id, (int)ms);
            t->st = SLEEP;
            t->prio = t->next;
            t->deadline = vos_now () + ms * MS;
            for (T *o : S->t)
                if (o != t && o->st == SLEEP && o->deadline == t->deadline) {
                    t->deadline += MS;
                    ms++;
                    break;
                }
            {
                /* distinct deadlines only */
                bool again = true;
                while (again) {
                    again = false;
                    for (T *o : S->t)
                        if (o != t && o->st == SLEEP &&
                            o->deadline == t->deadline) {
                            t->deadline += MS;
                            ms++;
                            again = true;
                        }
                }
            }
            predict ();
            hev_task_sleep (ms);
            arrive (t);
            break;
        }
        case 3:
            wake (S->t[vt_u (S->t.size ())]);
            break;
        case 4:
            if (S->budget > 0) {
                S->budget--;
                start (mk ());
            }
            break;
        case 5: {
            T *o = S->t[vt_u (S->t.size ())];
            int p = vt_pick ({ 0, 1, 2, 3, 5, 8, 13, 15, -3, 16, 400 });
            vt_log ("t%d sets prio of %d to %d", t->id, o->id, p);
            hev_task_set_priority (o->h, p);
            o->next = p < 0 ? 0 : p > 15 ? 15 : p;
            if (o->st == STOP)
                o->prio = o->next;
            if (o->next != t->next)
                S->multi = true;
            VT_CHECK (hev_task_get_priority (o->h) == o->next,
                      "clamp: priority %d reported as %d", p,
                      hev_task_get_priority (o->h));
            break;
        }
        }
    }
    keep_alive ();
    vt_log ("t%d ends", t->id);
    t->st = STOP;
    predict ();
}

void
prop_case (void)
{
    St st;
    int n = vt_range (1, 7);

    S = &st;
    ts_clock ();
    ts_init ();
    st.budget = vt_range (0, 6);
    st.crowd = vt_chance (1, 1000);
    st.burst = vt_chance (1, 1000);
    if (st.crowd && !st.burst) {
        n = vt_range (40, 300);
        st.budget = 100;
        vt_label ("crowds");
    }
    if (st.burst)
        vt_label ("long runs");
    for (int i = 0; i < n; i++)
        start (mk ());
    predict ();
    ts_run ();
    VT_CHECK (st.expect == nullptr, "order: loop ended but task %d should run",
              st.expect->id);
    if (st.t.size () >= 3 && st.multi && st.switches >= 10 && st.special)
        vt_nontrivial ();
    vt_label ("switches", st.switches);
    vt_label ("woken or started among runnable", st.special);
    std::string tr;
    for (size_t i = 0; i < st.trace.size () && i < 60; i++)
        tr += std::to_string (st.trace[i]) + " ";
    vt_sample ("tasks=%zu switches=%d order: %s", st.t.size (), st.switches,
               tr.c_str ());
    for (T *t : st.t) {
        hev_task_unref (t->h);
        delete t;
    }
    ts_fini ();
}
