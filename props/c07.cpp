// VARIANTS default:1800000:9000000 heap:900000:4500000
#include "ts.hpp"

const char *prop_id = "C07";
const char *prop_rule =
    "A case is 2-7 tasks running generated programs of lock/try/unlock/yield/"
    "sleep/wake/priority operations on 1-3 mutexes, judged online against an "
    "ownership model under a virtual clock. Non-trivial: at least one lock had "
    "to wait and got the mutex later. Distinct by the executed trace.";

struct St {
    HevTaskMutex m[3];
    int nm;
    int owner[3];
    int waiting[3];
    std::vector<HevTask *> t;
    std::vector<int> done;
    uint64_t steps; /* bumped by every operation of every task */
    int contended;
};

static void
task (St *s, int me, int len)
{
    bool held[3] = {};
    int nheld = 0, n = 0;

    while (vt_more (n, len, 12)) {
        int op = vt_weight ({ 6, 3, 6, 3, 2, 3, 1 });
        n++;
        s->steps++;
        switch (op) {
        case 0: { /* lock, in increasing order only */
            int lo = 0;
            for (int i = 0; i < s->nm; i++)
                if (held[i])
                    lo = i + 1;
            if (lo >= s->nm)
                break;
            int k = lo + (int)vt_u (s->nm - lo);
            bool must_wait = s->owner[k] >= 0;
            uint64_t before = s->steps;
            s->waiting[k]++;
            int r = hev_task_mutex_lock (&s->m[k]);
            s->waiting[k]--;
            VT_CHECK (r == 0, "result: lock returned %d", r);
            VT_CHECK (s->owner[k] < 0,
                      "exclusion: task %d got mutex %d held by task %d", me, k,
                      s->owner[k]);
            if (!must_wait)
                VT_CHECK (before == s->steps,
                          "blocked: locking a free mutex suspended the task");
            else
                s->contended++;
            s->owner[k] = me;
            held[k] = true;
            nheld++;
            vt_sig (0x100 + me * 16 + k);
            vt_log ("t%d lock %d%s", me, k, must_wait ? " (waited)" : "");
            break;
        }
        case 1: {
            int k = (int)vt_u (s->nm);
            uint64_t before = s->steps;
            int r = hev_task_mutex_trylock (&s->m[k]);
            VT_CHECK (before == s->steps, "blocked: trylock suspended the task");
            if (s->owner[k] >= 0)
                VT_CHECK (r != 0,
                          "exclusion: trylock of mutex %d succeeded while task "
                          "%d holds it",
                          k, s->owner[k]);
            else
                VT_CHECK (r == 0, "trylock: failed (%d) on a free mutex", r);
            vt_log ("t%d try %d -> %d", me, k, r);
            if (r == 0) {
                /* keeping one out of order could make the program deadlock */
                bool order = true;
                for (int i = k + 1; i < s->nm; i++)
                    order &= !held[i];
                s->owner[k] = me;
                if (order) {
                    held[k] = true;
                    nheld++;
                } else {
                    s->owner[k] = -1;
                    VT_CHECK (hev_task_mutex_unlock (&s->m[k]) == 0,
                              "result: unlock failed");
                }
            }
            vt_sig (0x200 + me * 16 + k + (r ? 8 : 0));
            break;
        }
        case 2: {
            if (!nheld)
                break;
            int k = (int)vt_u (s->nm);
            while (!held[k])
                k = (k + 1) % s->nm;
            held[k] = false;
            nheld--;
            s->owner[k] = -1;
            uint64_t before = s->steps;
            int r = hev_task_mutex_unlock (&s->m[k]);
            VT_CHECK (r == 0, "result: unlock returned %d", r);
            VT_CHECK (before == s->steps, "blocked: unlock suspended the task");
            vt_sig (0x300 + me * 16 + k);
            vt_log ("t%d unlock %d", me, k);
            break;
        }
        case 3:
            vt_log ("t%d yield", me);
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 4: {
            int ms = vt_range (1, 6);
            vt_log ("t%d sleep %d", me, ms);
            hev_task_sleep (ms);
            break;
        }
        case 5: { /* spurious wake-up */
            int o = (int)vt_u (s->t.size ());
            vt_log ("t%d wake %d", me, o);
            if (!s->done[o])
                hev_task_wakeup (s->t[o]);
            break;
        }
        case 6:
            hev_task_set_priority (s->t[me], vt_range (0, 15));
            break;
        }
        s->steps++;
    }
    for (int i = s->nm - 1; i >= 0; i--)
        if (held[i]) {
            s->owner[i] = -1;
            s->steps++;
            hev_task_mutex_unlock (&s->m[i]);
            vt_log ("t%d final unlock %d", me, i);
        }
    s->done[me] = 1;
    s->steps++;
}

void
prop_case (void)
{
    St s = {};
    int nt = vt_range (2, 7);
    bool crowd = vt_chance (1, 1000);

    ts_clock ();
    ts_init ();
    s.nm = vt_range (1, 3);
    for (int i = 0; i < s.nm; i++) {
        memset (&s.m[i], 0xa5, sizeof (s.m[i]));
        VT_CHECK (hev_task_mutex_init (&s.m[i]) == 0, "result: init failed");
        s.owner[i] = -1;
    }
    if (crowd) {
        nt = vt_range (30, 300);
        vt_label ("crowds");
    }
    s.done.assign (nt, 0);
    for (int i = 0; i < nt; i++)
        s.t.push_back (ts_new ());
    for (int i = 0; i < nt; i++) {
        int prio = vt_bool () ? vt_range (0, 15) : 8;
        int len = vt_range (4, crowd ? 8 : 40);
        hev_task_set_priority (s.t[i], prio);
        St *p = &s;
        ts_start (s.t[i], [p, i, len] { task (p, i, len); });
    }
    ts_run ();
    for (int i = 0; i < nt; i++)
        VT_CHECK (s.done[i], "stranded: task %d did not finish", i);
    ts_fini ();
    if (s.contended)
        vt_nontrivial ();
    vt_label ("contended locks", s.contended);
    vt_sample ("tasks=%d mutexes=%d contended=%d steps=%llu", nt, s.nm,
               s.contended, (unsigned long long)s.steps);
}
