// VARIANTS default:1750000:7000000 heap:500000:2000000 asan:50000:250000
#include "ts.hpp"

const char *prop_id = "C05";
const char *prop_rule =
    "A case is 2-7 tasks (and restarts of them) that join tasks of higher rank, "
    "sleep, wait, yield, wake others spuriously, return or exit early, release "
    "or restart joined tasks; a model knows who has terminated and who is "
    "joining whom. Non-trivial: one join really had to wait for its target. "
    "Distinct by the executed trace.";

struct T {
    HevTask *h, *extra = nullptr; /* another reference, held all the time */
    int id, done = 0, started = 0, ref = 1;
    int joiner = -1, woken = 0, waiting = 0, sleeping = 0;
    int joined_while_waiting = 0;
    uint64_t term_at = 0;
    int len, restarts = 0;
};
struct St {
    std::vector<T *> t;
    int alive = 0, waited = 0, refused = 0, restarts = 0, rejoined = 0;
    uint64_t sw = 0;
    int exits = 0;
};
static St *S;

static void entry (void *d);

static void
start (T *t)
{
    t->done = 0;
    t->started = 1;
    t->len = vt_range (0, 14);
    S->alive++;
    hev_task_ref (t->h);
    hev_task_run (t->h, entry, t);
}

static void
wake (T *o)
{
    if (o->done || !o->started || !o->ref)
        return;
    if (o->waiting)
        o->woken = 1;
    /* a woken joiner wakes what it joins */
    hev_task_wakeup (o->h);
}

static void
mark_joined (int target)
{
    T *o = S->t[target];
    if (o->waiting)
        o->woken = 1;
}

static void
join (T *t, T *o)
{
    uint64_t sw = S->sw;
    bool busy = o->joiner >= 0, over = o->done;
    int r;

    if (!o->started || !o->ref)
        return;
    vt_log ("t%d joins %d (busy %d over %d)", t->id, o->id, busy, over);
    vt_sig (0x1000 + t->id * 16 + o->id);
    if (!busy) {
        o->joiner = t->id;
        mark_joined (o->id);
    }
    r = hev_task_join (o->h);
    VT_CHECK (hev_task_self () == t->h, "self: wrong current task after join");
    if (busy) {
        VT_CHECK (r != 0, "second: a second join of task %d succeeded", o->id);
        VT_CHECK (S->sw == sw, "second: a refused join suspended the task");
        S->refused++;
        return;
    }
    VT_CHECK (r == 0, "result: join of task %d returned %d", o->id, r);
    VT_CHECK (o->done, "early: join returned before task %d terminated", o->id);
    VT_CHECK (hev_task_get_state (o->h) == HEV_TASK_STOPPED,
              "early: joined task %d is not stopped", o->id);
    if (over)
        VT_CHECK (S->sw == sw, "late: join of a terminated task suspended");
    else {
        S->waited++;
        VT_CHECK (vos_now () == o->term_at,
                  "late: join returned %llu ns after task %d terminated",
                  (unsigned long long)(vos_now () - o->term_at), o->id);
    }
    o->joiner = -1;
    S->sw++;
    if (vt_chance (1, 3)) {
        /* now it may be released ... */
        if (o->ref && vt_bool ()) {
            o->ref = 0;
            hev_task_unref (o->h);
            o->h = nullptr;
        } else if (o->restarts < 2) {
            /* ... or started again */
            o->restarts++;
            S->restarts++;
            start (o);
        }
    }
}

static void
entry (void *d)
{
    T *t = (T *)d;
    int n = 0;

    S->sw++;
    VT_CHECK (!t->done && hev_task_self () == t->h, "self: wrong start");
    while (vt_more (n, t->len, 8)) {
        n++;
        int k = vt_weight ({ 4, 3, 2, 2, 3, 1 });
        vt_sig (t->id * 8 + k);
        switch (k) {
        case 0:
            if (t->id + 1 < (int)S->t.size ())
                join (t, S->t[t->id + 1 + vt_u (S->t.size () - t->id - 1)]);
            break;
        case 1:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 2: {
            unsigned ms = vt_range (1, 4);
            if (vt_bool ())
                while (ms)
                    ms = hev_task_sleep (ms);
            else
                hev_task_sleep (ms);
            break;
        }
        case 3:
            t->waiting = 1;
            t->woken = 0;
            vt_log ("t%d waits", t->id);
            hev_task_yield (HEV_TASK_WAITIO);
            VT_CHECK (t->woken || t->joiner >= 0,
                      "disturbed: task %d was woken by nobody it knows of",
                      t->id);
            t->waiting = 0;
            break;
        case 4:
            wake (S->t[vt_u (S->t.size ())]);
            break;
        case 5:
            hev_task_set_priority (t->h, vt_range (0, 15));
            break;
        }
        S->sw++;
        VT_CHECK (hev_task_self () == t->h, "self: wrong current task");
    }
    S->sw++;
    S->alive--;
    t->done = 1;
    t->term_at = vos_now ();
    vt_log ("t%d ends at %llu", t->id, (unsigned long long)vos_now ());
    if (vt_bool ()) {
        S->exits++;
        hev_task_exit ();
    }
}

static void
janitor (void)
{
    while (S->alive) {
        hev_task_sleep (50);
        for (T *o : S->t)
            if (o->waiting && !o->woken && !o->done)
                wake (o);
    }
}

void
prop_case (void)
{
    St st;
    int n = vt_range (2, 7);

    S = &st;
    ts_clock ();
    ts_init ();
    for (int i = 0; i < n; i++) {
        T *t = new T;
        t->id = i;
        t->h = ts_new ();
        if (vt_chance (1, 3))
            t->extra = hev_task_ref (t->h);
        hev_task_set_priority (t->h, vt_bool () ? 8 : vt_range (0, 15));
        st.t.push_back (t);
    }
    /* ranks are independent of the start order */
    if (vt_bool ())
        for (int i = 0; i < n; i++)
            start (st.t[i]);
    else
        for (int i = n; i-- > 0;)
            start (st.t[i]);
    ts_go (janitor, 15);
    ts_run ();
    VT_CHECK (st.alive == 0, "lost: %d tasks did not finish", st.alive);
    for (T *t : st.t) {
        if (t->ref)
            hev_task_unref (t->h);
        if (t->extra)
            hev_task_unref (t->extra);
        delete t;
    }
    ts_fini ();
    if (st.waited)
        vt_nontrivial ();
    vt_label ("joins that waited", st.waited);
    vt_label ("refused joins", st.refused);
    vt_label ("restarts", st.restarts);
    vt_label ("exits", st.exits);
    vt_sample ("tasks=%d waited=%d refused=%d restarts=%d exits=%d", n,
               st.waited, st.refused, st.restarts, st.exits);
}
