// VARIANTS default:2000000:7000000 noslice:1250000:5000000 heap:750000:3000000 asan:37500:250000 asanheap:37500:250000
#include "ts.hpp"

const char *prop_id = "C04";
const char *prop_rule =
    "A case is a history of create, reference, unreference, start, restart, "
    "query, suspend, wake and terminate operations over several task handles, "
    "issued from inside and outside the run loop; a model predicts state, data, "
    "priority, liveness and the library's memory use after every operation. "
    "Non-trivial: a task was restarted or outlived its termination through a "
    "held reference, and one died with its last reference. Distinct by the "
    "executed trace.";

enum { STOP, RUN, WAIT };
struct T {
    HevTask *h;
    int id, st = STOP, user = 1, alive = 1, starts = 0, runs = 0;
    int prio = 8;
    void *data = nullptr;
    int len = 0;
    bool sleeping = false;
    uint64_t deadline = 0;
};
struct St {
    std::vector<T *> t;
    T *cur = nullptr;
    long base_maps, base_blocks, base_mapb;
    int live = 0;
    long dmaps = 0, dblocks = 0;
    int restarts = 0, outlived = 0, died = 0;
    int ops = 0;
    std::vector<void *> datas;
};
static St *S;
static bool slice;

static void
check_mem (const char *where)
{
    VT_CHECK (vos_live.maps == S->base_maps + S->dmaps * S->live,
              "memory: %ld mappings instead of %ld for %d live tasks after %s",
              vos_live.maps - S->base_maps, S->dmaps * S->live, S->live, where);
    if (!slice)
        VT_CHECK (vos_live.blocks == S->base_blocks + S->dblocks * S->live,
                  "memory: %ld blocks instead of %ld for %d live tasks after %s",
                  vos_live.blocks - S->base_blocks, S->dblocks * S->live,
                  S->live, where);
}

static void
died (T *t)
{
    if (t->user == 0 && t->st == STOP && t->alive) {
        t->alive = 0;
        S->live--;
        S->died++;
    }
}

static T *
mk (void)
{
    T *t = new T;
    int sz = vt_pick ({ -1, 16384, 65536, 131072 });
    t->id = S->t.size ();
    t->h = hev_task_new (sz < 0 ? -1 : sz + 65536);
    VT_CHECK (t->h, "new: failed");
    S->live++;
    S->t.push_back (t);
    return t;
}

static void
query (T *t)
{
    static const int map[] = { HEV_TASK_STOPPED, HEV_TASK_RUNNING,
                               HEV_TASK_WAITING };
    if (!t->alive)
        return;
    if (t->st == WAIT && t->sleeping && vos_now () >= t->deadline)
        ; /* its timer may have made it runnable already */
    else
        VT_CHECK ((int)hev_task_get_state (t->h) == map[t->st],
              "state: task %d reports %d, really %d", t->id,
              (int)hev_task_get_state (t->h), map[t->st]);
    VT_CHECK (hev_task_get_priority (t->h) == t->prio,
              "priority: task %d reports %d, set to %d", t->id,
              hev_task_get_priority (t->h), t->prio);
    if (t->starts)
        VT_CHECK (hev_task_get_data (t->h) == t->data,
                  "data: task %d reports the wrong data", t->id);
}

static void entry (void *d);
static void
other_entry (void *d)
{
    vt_fail ("start: a started task ran another entry function");
}
struct Start {
    T *t;
    int nr;
};

static void
start (T *t)
{
    Start *d = new Start{ t, t->starts };
    if (!t->alive)
        return;
    if (t->st != STOP) {
        /* changes nothing */
        hev_task_run (t->h, other_entry, vt_bool () ? d : NULL);
        return;
    }
    if (!t->user)
        return;
    t->starts++;
    if (t->starts > 1)
        S->restarts++;
    t->user--; /* the system now owns it */
    t->st = RUN;
    if (vt_chance (1, 5)) {
        delete d;
        d = NULL;
    }
    t->data = d;
    t->len = vt_range (0, 12);
    t->sleeping = false;
    hev_task_run (t->h, entry, d);
}

static int
count (int st)
{
    int n = 0;
    for (T *t : S->t)
        n += t->alive && t->st == st;
    return n;
}

static void
wake (T *o)
{
    if (!o->alive || o->st == STOP)
        return;
    hev_task_wakeup (o->h);
    o->st = RUN;
}

static void
op (int k, T *o)
{
    vt_sig (k * 64 + o->id);
    vt_log ("%d: op %d on %d (st %d user %d alive %d)",
            S->cur ? S->cur->id : -1, k, o->id, o->st, o->user, o->alive);
    switch (k) {
    case 0:
        query (o);
        break;
    case 1:
        if (o->alive) {
            int many = 1;
            if (vt_chance (1, 2000))
                many = vt_pick ({ 130, 260, 70000 });
            while (many--) {
                HevTask *r = hev_task_ref (o->h);
                VT_CHECK (r == o->h, "ref: returned another handle");
                o->user++;
            }
        }
        break;
    case 2:
        if (o->user) {
            o->user--;
            died (o);
            hev_task_unref (o->h);
            check_mem ("unref");
        }
        break;
    case 3:
        start (o);
        query (o);
        break;
    case 4:
        if (S->t.size () < 10)
            mk ();
        check_mem ("new");
        break;
    case 5: {
        int p = vt_pick ({ 0, 3, 8, 15, -1, 16, 1000, -1000 });
        if (o->alive) {
            hev_task_set_priority (o->h, p);
            o->prio = p < 0 ? 0 : p > 15 ? 15 : p;
            query (o);
        }
        break;
    }
    case 6:
        wake (o);
        query (o);
        break;
    }
    S->ops++;
}

static void
all (void)
{
    for (T *t : S->t)
        query (t);
    check_mem ("a switch");
}

static void
entry (void *d)
{
    Start *s = (Start *)d;
    T *t = s ? s->t : NULL;
    int n = 0;

    if (!s)
        for (T *o : S->t)
            if (o->alive && o->h == hev_task_self ())
                t = o;
    VT_CHECK (t && t->data == d, "data: a task was given the wrong data");
    VT_CHECK ((!s || t->starts == s->nr + 1) && t->runs == t->starts - 1,
              "start: task %d ran for the wrong start", t->id);
    t->runs++;
    S->cur = t;
    VT_CHECK (hev_task_self () == t->h, "self: wrong current task");
    all ();
    while (vt_more (n, t->len, 8)) {
        n++;
        int k = (int)vt_weight ({ 2, 3, 5, 4, 1, 2, 3, 4, 2, 2, 1 });
        if (k < 7) {
            op (k, S->t[vt_u (S->t.size ())]);
            continue;
        }
        if (k == 7) {
            hev_task_yield (HEV_TASK_YIELD);
        } else if (k == 8) {
            if (count (RUN) < 2)
                continue;
            t->st = WAIT;
            hev_task_yield (HEV_TASK_WAITIO);
            VT_CHECK (t->st == RUN, "state: task %d resumed from a wait nobody "
                                    "ended",
                      t->id);
        } else if (k == 9) {
            t->st = WAIT;
            t->sleeping = true;
            int ms = vt_range (1, 3);
            t->deadline = vos_now () + ms * MS;
            hev_task_sleep (ms);
            t->sleeping = false;
            t->st = RUN;
        } else if (vt_bool ()) {
            break;
        } else {
            continue;
        }
        S->cur = t;
        VT_CHECK (hev_task_self () == t->h, "self: wrong current task");
        all ();
    }
    /* somebody has to stay awake */
    if (count (RUN) < 2)
        for (T *o : S->t)
            if (o->alive && o->st == WAIT)
                wake (o);
    t->st = STOP;
    if (t->user)
        S->outlived++;
    died (t);
    S->cur = nullptr;
    if (t->id & 1)
        hev_task_exit ();
}

void
prop_case (void)
{
    St st;
    int rounds = vt_range (1, 3);
    long m0 = vos_live.maps, b0 = vos_live.blocks;

    S = &st;
    slice = !strcmp (vt_variant (), "default");
    ts_clock ();
    ts_init ();
    {
        /* what one task costs */
        st.base_maps = vos_live.maps;
        st.base_blocks = vos_live.blocks;
        HevTask *p = hev_task_new (-1);
        st.dmaps = vos_live.maps - st.base_maps;
        st.dblocks = vos_live.blocks - st.base_blocks;
        hev_task_unref (p);
    }
    check_mem ("unref of the first task");
    mk ();
    for (int r = 0; r < rounds; r++) {
        int n = 0, lim = vt_range (1, 14);
        while (vt_more (n, lim, 8)) {
            n++;
            op ((int)vt_weight ({ 2, 3, 2, 5, 4, 2 }),
                st.t[vt_u (st.t.size ())]);
        }
        st.cur = nullptr;
        ts_run ();
        for (T *t : st.t) {
            VT_CHECK (t->st == STOP, "loop: ended while task %d is started",
                      t->id);
            VT_CHECK (t->runs == t->starts, "start: task %d started %d, ran %d",
                      t->id, t->starts, t->runs);
        }
        all ();
    }
    for (T *t : st.t)
        while (t->user) {
            t->user--;
            died (t);
            hev_task_unref (t->h);
            check_mem ("the last unref");
        }
    VT_CHECK (st.live == 0, "harness: live count");
    ts_fini ();
    VT_CHECK (vos_live.maps == m0, "memory: %ld mappings left at the end",
              vos_live.maps - m0);
    VT_CHECK (vos_live.blocks == b0, "memory: %ld blocks left at the end",
              vos_live.blocks - b0);
    if ((st.restarts || st.outlived) && st.died)
        vt_nontrivial ();
    vt_label ("restarts", st.restarts);
    vt_label ("outlived termination", st.outlived);
    vt_label ("died", st.died);
    vt_sample ("rounds=%d tasks=%zu ops=%d restarts=%d outlived=%d", rounds,
               st.t.size (), st.ops, st.restarts, st.outlived);
    for (T *t : st.t)
        delete t;
}
