// VARIANTS default:1500000:6000000 heap:500000:2000000 asan:50000:200000
#include "ts.hpp"
#include <sys/eventfd.h>
#include <unistd.h>

const char *prop_id = "C06";
const char *prop_rule =
    "A case is 1-10 tasks sleeping for generated millisecond and microsecond "
    "durations (up to the largest representable) from generated clock phases, "
    "interrupted by wake-ups of other tasks or descriptor events at generated "
    "virtual times, optionally while other tasks burn CPU time; a model knows "
    "every deadline. Non-trivial: at least two sleeps overlapped. Distinct by "
    "durations, interruptions and order of returns.";

struct T {
    HevTask *h;
    int id, done = 0, len;
    bool usefd;
    int efd = -1;
    /* current sleep */
    bool sleeping = false;
    uint64_t start = 0, deadline = 0;
    bool hit = false; /* interrupted */
    uint64_t hit_at = 0;
    bool maybe = false; /* a descriptor event may be pending */
};
struct St {
    std::vector<T *> t;
    bool busy, stepping, crowd;
    int outlasted = 0, overlap = 0, interrupted = 0, longs = 0, sleeps = 0;
};
static St *S;

static unsigned
duration (bool ms)
{
    switch (vt_weight ({ 6, 4, 3, 2, 2, 2 })) {
    case 0:
        return vt_range (0, 5);
    case 1:
        return vt_range (0, 2000);
    case 2:
        return (ms ? 1000u : 1000000u) * vt_range (0, 3) + vt_range (0, 2) -
               (vt_bool () ? 1u : 0u);
    case 3: {
        static const unsigned b[] = { 4294967,    4294968,    4294966,
                                      0x7fffffff, 0x80000000, 0xffffffff,
                                      0xfffffffe, 2147483,    2147484 };
        return b[vt_u (9)];
    }
    case 4:
        return (unsigned)vt_u (1ull << 32);
    default:
        return 1u << vt_u (32);
    }
}

static void
hit (T *o, bool fd)
{
    if (fd)
        o->maybe = true;
    if (o->sleeping && !o->hit) {
        /* at or after its deadline it is over anyway */
        o->hit = true;
        o->hit_at = vos_now ();
    }
}

static void
do_sleep (T *t)
{
    bool ms = vt_bool ();
    unsigned d = duration (ms);
    uint64_t unit = ms ? MS : 1000, now;
    unsigned r, want;
    int others = 0;

    if (ms ? d > 5000 : d > 5000000)
        S->longs++;
    S->sleeps++;
    for (T *o : S->t)
        others += o->sleeping;
    if (others && d)
        S->overlap++;
    t->start = vos_now ();
    t->deadline = t->start + d * unit;
    t->sleeping = true;
    t->hit = false;
    vt_log ("t%d sleeps %u %s until %llu (now %llu)", t->id, d, ms ? "ms" : "us",
            (unsigned long long)t->deadline, (unsigned long long)vos_now ());
    r = ms ? hev_task_sleep (d) : hev_task_usleep (d);
    t->sleeping = false;
    now = vos_now ();
    vt_log ("t%d returns %u at %llu hit %d at %llu", t->id, r,
            (unsigned long long)now, t->hit, (unsigned long long)t->hit_at);
    vt_sig (t->id);
    vt_sig (now - t->start);
    VT_CHECK (hev_task_self () == t->h, "self: wrong current task");
    if (S->stepping) {
        /* the clock moves with every reading: bounds only */
        if (!t->hit && !t->maybe)
            VT_CHECK (now >= t->deadline && r == 0,
                      "early: sleep of %u %s returned %u after %llu ns", d,
                      ms ? "ms" : "us", r, (unsigned long long)(now - t->start));
        VT_CHECK ((uint64_t)r * unit <= (uint64_t)d * unit,
                  "remainder: larger than the request");
        t->maybe = false;
        return;
    }
    want = now >= t->deadline ? 0 : (unsigned)((t->deadline - now) / unit);
    VT_CHECK (r == want, "remainder: sleep of %u %s returned %u, %u are left", d,
              ms ? "ms" : "us", r, want);
    if (now < t->deadline) {
        VT_CHECK (t->hit || t->maybe,
                  "early: sleep of %u %s ended %llu ns early without a wake-up",
                  d, ms ? "ms" : "us", (unsigned long long)(t->deadline - now));
        S->interrupted++;
    }
    if (!S->busy && d) {
        uint64_t due = t->deadline;
        if (t->hit && t->hit_at < due)
            due = t->hit_at;
        VT_CHECK (now <= due, "late: sleep of %u %s returned %llu ns late", d,
                  ms ? "ms" : "us", (unsigned long long)(now - due));
    }
    if (!t->hit && !t->maybe && d)
        for (T *o : S->t)
            if (o->sleeping && !o->hit && !o->maybe && o->deadline < t->deadline)
                vt_fail ("order: task %d with a later deadline woke before "
                         "task %d",
                         t->id, o->id);
    t->maybe = false;
}

/* a task that never waits does not keep a sleeper from waking */
static void
outlast (T *t)
{
    T *o = NULL;
    uint64_t dl;

    for (T *x : S->t)
        if (x->sleeping && (!o || x->deadline < o->deadline))
            o = x;
    if (!o)
        return;
    dl = o->deadline;
    if (dl > vos_now () + 20 * MS)
        return;
    vt_log ("t%d runs past the deadline of t%d", t->id, o->id);
    if (dl > vos_now ())
        vos_advance (dl - vos_now () + vt_u (2) * 1000);
    hev_task_set_priority (t->h, 8);
    for (int i = 0; o->sleeping && o->deadline == dl; i++) {
        VT_CHECK (i < 500, "starved: task %d does not wake while task %d runs",
                  o->id, t->id);
        hev_task_yield (HEV_TASK_YIELD);
    }
    S->outlasted++;
}

static void
body (T *t)
{
    int n = 0;

    while (vt_more (n, t->len, 6)) {
        n++;
        switch (vt_weight ({ 8, 3, 2, 3, 2, 1 })) {
        case 0:
            do_sleep (t);
            break;
        case 1: {
            T *o = S->t[vt_u (S->t.size ())];
            if (o->done)
                break;
            if (o != t)
                hit (o, false);
            hev_task_wakeup (o->h);
            break;
        }
        case 2:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 3: {
            T *o = S->t[vt_u (S->t.size ())];
            uint64_t at = vos_now () + vt_pick ({ 0, 1, 3, 500, 2000 }) * MS +
                          vt_pick ({ 0, 1, 999, 1000, 500000 });
            if (!o->usefd || o->done)
                break;
            ts_at (at, [o] {
                uint64_t one = 1;
                if (o->efd < 0)
                    return;
                hit (o, true);
                if (write (o->efd, &one, 8) < 0) {
                }
            });
            break;
        }
        case 4:
            if (S->busy)
                vos_advance (vt_range (0, 5000) * 1000ull);
            break;
        case 5:
            if (S->busy && !S->crowd)
                outlast (t);
            break;
        }
    }
    t->done = 1;
    if (t->efd >= 0) {
        hev_task_del_fd (t->h, t->efd);
        close (t->efd);
        t->efd = -1;
    }
}

void
prop_case (void)
{
    St st;
    int n = vt_range (1, 10);
    bool crowd = vt_chance (1, 1000);

    S = &st;
    st.crowd = crowd;
    ts_env_clear ();
    ts_clock ();
    if (vt_bool ())
        vos_set_time (vt_u (4000000000ull));
    st.busy = vt_chance (1, 4);
    st.stepping = vt_chance (1, 8);
    if (st.stepping)
        vos_clock_step = vt_pick ({ 1, 1000, 300000 });
    ts_init ();
    if (crowd) {
        n = vt_range (30, 300);
        vt_label ("crowds");
    }
    for (int i = 0; i < n; i++) {
        T *t = new T;
        t->id = i;
        t->len = vt_range (1, crowd ? 3 : 10);
        t->usefd = vt_chance (1, 3);
        t->h = ts_new ();
        hev_task_set_priority (t->h, vt_range (0, 15));
        if (t->usefd) {
            t->efd = eventfd (0, EFD_NONBLOCK);
            VT_CHECK (hev_task_add_fd (t->h, t->efd, POLLIN) == 0,
                      "fd: registration failed");
        }
        st.t.push_back (t);
    }
    for (T *t : st.t)
        ts_start (t->h, [t] { body (t); });
    ts_run ();
    for (T *t : st.t)
        VT_CHECK (t->done, "lost: task %d did not finish", t->id);
    ts_fini ();
    if (st.overlap)
        vt_nontrivial ();
    vt_label ("sleeps", st.sleeps);
    vt_label ("overlapping", st.overlap);
    vt_label ("interrupted", st.interrupted);
    vt_label ("long durations", st.longs);
    vt_label ("woken while another task runs", st.outlasted);
    vt_sample ("tasks=%d sleeps=%d overlapping=%d interrupted=%d long=%d", n,
               st.sleeps, st.overlap, st.interrupted, st.longs);
    for (T *t : st.t)
        delete t;
}
