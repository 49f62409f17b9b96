// VARIANTS tsan:10500:35000 default:27000:90000 asan:7500:25000
#include "cio.hpp"
#include <atomic>
#include <pthread.h>
#include <sched.h>

const char *prop_id = "C25";
const char *prop_rule =
    "A case is a generated history of taking and dropping references on a graph "
    "of objects of both kinds, or a set of threads sharing a thread-safe object "
    "whose operations are interleaved in a generated order without any "
    "synchronisation of their own, or the same running freely for many rounds. "
    "Non-trivial: an object that was referenced at least 3 times was finalized, "
    "or two threads shared an object. Distinct by history, or by schedule.";

int
prop_racy (void)
{
    return 1;
}

/* ---- one thread: a graph of objects ---- */
struct Node {
    void *o;
    long refs; /* model: ours and those of parents */
    long ours;
    int fin;
    bool atomic;
    long taken;
    std::vector<Node *> kids;
};
static std::vector<Node *> nodes;
static int finalized, expected_depth;

static void
node_fin (void *o, void *d)
{
    Node *n = (Node *)d;

    VT_CHECK (n->o == o, "identity: the finalizer got another object");
    VT_CHECK (n->fin == 0, "twice: an object was finalized twice");
    VT_CHECK (n->refs == 0, "early: an object with %ld references was "
              "finalized", n->refs);
    n->fin = 1;
    finalized++;
    /* the references it held go with it */
    for (Node *k : n->kids) {
        k->refs--;
        int f = k->fin;
        bool last = k->refs == 0;
        sh_unref (k->o);
        VT_CHECK (k->fin == (last ? 1 : f), "%s: a dropped reference left an "
                  "object with %ld references %sfinalized",
                  last ? "late" : "early", k->refs, k->fin ? "" : "not ");
    }
    n->o = NULL;
    free (o);
}

static void
take (Node *n, long times)
{
    for (long i = 0; i < times; i++) {
        n->refs++;
        sh_ref (n->o);
    }
    n->ours += times;
    n->taken += times;
    VT_CHECK (!n->fin, "early: taking a reference finalized the object");
}

static void
drop (Node *n, long times)
{
    n->ours -= times;
    for (long i = 0; i < times; i++) {
        bool last = --n->refs == 0;
        sh_unref (n->o);
        VT_CHECK (n->fin == (int)last,
                  "%s: an object with %ld references left is %sfinalized",
                  last ? "late" : "early", n->refs, n->fin ? "" : "not ");
    }
}

static void
sequential (void)
{
    int len = vt_range (3, 60), most = 0;
    std::vector<Node *> live;

    for (int i = 0; i < len; i++) {
        live.clear ();
        for (Node *n : nodes)
            if (n->ours)
                live.push_back (n);
        int w = vt_weight ({ 3, 5, 5, 3, 1 });
        if (live.empty ())
            w = 0;
        Node *n = w ? live[vt_u (live.size ())] : NULL;
        switch (w) {
        case 0: {
            n = new Node ();
            n->refs = n->ours = 1;
            n->taken = 1;
            n->atomic = vt_bool ();
            n->o = sh_obj_new (n->atomic, node_fin, n);
            nodes.push_back (n);
            vt_log ("new %s object %zu", n->atomic ? "thread-safe" : "plain",
                    nodes.size () - 1);
            break;
        }
        case 1: {
            long k = vt_chance (1, 40)  ? vt_range (65000, 66000)
                     : vt_chance (1, 8) ? vt_range (2, 600)
                                        : 1;
            vt_log ("take %ld", k);
            take (n, k);
            vt_sig (k);
            break;
        }
        case 2: {
            long k = vt_chance (1, 8) ? n->ours : vt_range (1, n->ours > 3 ? 3 : n->ours);
            vt_log ("drop %ld of %ld", k, n->ours);
            drop (n, k);
            vt_sig (k + 7);
            break;
        }
        case 3: { /* a later object holds a reference to an earlier one */
            Node *k = nodes[vt_u (nodes.size ())];
            size_t a = 0, b = 0;
            for (size_t j = 0; j < nodes.size (); j++) {
                if (nodes[j] == n)
                    a = j;
                if (nodes[j] == k)
                    b = j;
            }
            if (!k->o || b >= a)
                break;
            k->refs++;
            k->taken++;
            sh_ref (k->o);
            n->kids.push_back (k);
            vt_log ("object %zu holds %zu", a, b);
            vt_sig (a * 64 + b);
            break;
        }
        case 4:
            drop (n, n->ours);
            break;
        }
        for (Node *m : nodes)
            VT_CHECK (m->fin == (m->refs == 0), "count: an object with %ld "
                      "references is %sfinalized", m->refs,
                      m->fin ? "" : "not ");
    }
    for (Node *n : nodes) {
        if (n->ours)
            drop (n, n->ours);
        if (n->taken > most)
            most = n->taken;
    }
    for (Node *n : nodes) {
        VT_CHECK (n->fin == 1, "late: an object without references is not "
                               "finalized");
        delete n;
    }
    nodes.clear ();
    if (most >= 3)
        vt_nontrivial ();
    vt_label ("objects finalized", finalized);
    vt_sample ("history ops=%d objects=%d most references=%d", len, finalized,
               most);
}

/* ---- threads ---- */
#define MAXTH 6
struct Shared {
    void *o;
    std::atomic<long> refs; /* model; relaxed, orders nothing */
    std::atomic<int> fin;
    /* what the threads do to the object, without synchronisation */
    long slot[MAXTH];
    long want[MAXTH];
};
enum { TAKE, DROP, WRITE };
struct Op {
    int what;
};
struct Th {
    std::vector<Op> ops;
    long holds;
};
static Shared *sh;
static int nth, rounds;
static Th th[MAXTH];
static std::vector<int> order; /* thread of every step */
static std::atomic<long> turn;
static bool checked; /* model refs are exact (one operation at a time) */
#define RLX std::memory_order_relaxed

static void
shared_fin (void *o, void *d)
{
    Shared *s = (Shared *)d;
    long f = s->fin.fetch_add (1, RLX);

    VT_CHECK (f == 0, "twice: an object was finalized twice");
    if (checked)
        VT_CHECK (s->refs.load (RLX) == 0, "early: finalized with %ld "
                  "references", s->refs.load (RLX));
    for (int i = 0; i < nth; i++)
        VT_CHECK (s->slot[i] == s->want[i], "visible: the finalizer saw %ld "
                  "instead of %ld", s->slot[i], s->want[i]);
    free (o);
}

static void
step (Shared *s, int i, int what)
{
    if (what == TAKE) {
        s->refs.fetch_add (1, RLX);
        sh_ref (s->o);
    } else if (what == DROP) {
        bool last = s->refs.fetch_sub (1, RLX) == 1;
        sh_unref (s->o);
        if (checked)
            VT_CHECK (s->fin.load (RLX) == (int)last,
                      "%s: after a drop the object is %sfinalized",
                      last ? "late" : "early",
                      s->fin.load (RLX) ? "" : "not ");
    } else {
        s->slot[i]++;
    }
}

static void *
by_turns (void *a)
{
    int me = (int)(intptr_t)a;
    size_t k = 0;

    for (size_t t = 0; t < order.size (); t++) {
        if (order[t] != me)
            continue;
        for (int spin = 0; turn.load (RLX) != (long)t; spin++)
            if (spin > 50)
                sched_yield ();
        step (sh, me, th[me].ops[k++].what);
        turn.store (t + 1, RLX);
    }
    return NULL;
}

static std::atomic<int> gate;
static std::vector<Shared *> each;

static void *
freely (void *a)
{
    int me = (int)(intptr_t)a;

    for (int r = 0; r < rounds; r++) {
        gate.fetch_add (1);
        for (int spin = 0; gate.load () < nth * (r + 1); spin++)
            if (spin > 2000)
                sched_yield ();
        for (auto &o : th[me].ops)
            step (each[r], me, o.what);
    }
    return NULL;
}

static Shared *
shared_new (void)
{
    Shared *s = new Shared ();
    s->refs = 0;
    s->fin = 0;
    s->o = sh_obj_new (1, shared_fin, s);
    s->refs = 1;
    for (int i = 0; i < nth; i++) {
        s->slot[i] = 0;
        for (auto &o : th[i].ops)
            s->want[i] += o.what == WRITE;
        for (long k = 0; k < th[i].holds; k++) {
            s->refs++;
            sh_ref (s->o);
        }
    }
    /* ours goes: the threads have the only ones left */
    s->refs--;
    sh_unref (s->o);
    VT_CHECK (!s->fin, "early: a referenced object was finalized");
    return s;
}

static void
threads (bool turns)
{
    pthread_t t[MAXTH];
    int total = 0;

    nth = vt_range (2, MAXTH);
    order.clear ();
    each.clear ();
    for (int i = 0; i < nth; i++) {
        long h;
        th[i].ops.clear ();
        h = th[i].holds = vt_range (1, 3);
        int n = vt_u (turns ? 10 : 6);
        for (int k = 0; k < n; k++) {
            int w = vt_u (3);
            /* the last own reference is dropped at the end */
            if (w == DROP && h < 2)
                w = WRITE;
            th[i].ops.push_back ({ w });
            h += w == TAKE ? 1 : w == DROP ? -1 : 0;
        }
        if (vt_bool ())
            th[i].ops.push_back ({ WRITE });
        while (h--)
            th[i].ops.push_back ({ DROP });
        total += th[i].ops.size ();
        for (auto &o : th[i].ops)
            vt_sig (o.what + 1);
        vt_sig (100 + th[i].holds);
    }
    checked = turns;
    if (turns) {
        size_t left[MAXTH];
        for (int i = 0; i < nth; i++)
            left[i] = th[i].ops.size ();
        for (int k = 0; k < total; k++) {
            int i = vt_u (nth);
            while (!left[i])
                i = (i + 1) % nth;
            left[i]--;
            order.push_back (i);
            vt_sig (i);
        }
        turn = 0;
        sh = shared_new ();
    } else {
        rounds = !strcmp (vt_variant (), "default") ? 1500 : 30;
        gate = 0;
        for (int r = 0; r < rounds; r++)
            each.push_back (shared_new ());
    }
    if (vt_verbose)
        for (int i = 0; i < nth; i++) {
            vt_log ("thread %d holds %ld and does:", i, th[i].holds);
            for (auto &o : th[i].ops)
                vt_log ("  %s", o.what == TAKE   ? "take"
                                : o.what == DROP ? "drop"
                                                 : "write");
        }
    for (int i = 0; i < nth; i++)
        if (pthread_create (&t[i], NULL, turns ? by_turns : freely,
                            (void *)(intptr_t)i))
            vt_fail ("harness: no thread");
    for (int i = 0; i < nth; i++)
        pthread_join (t[i], NULL);
    if (turns)
        each.push_back (sh);
    for (Shared *s : each) {
        VT_CHECK (s->fin == 1, "late: an object whose references are gone was "
                  "finalized %d times", s->fin.load ());
        delete s;
    }
    vt_nontrivial ();
    vt_label (turns ? "interleaved steps" : "free rounds",
              turns ? total : rounds);
    vt_sample ("%s threads=%d steps=%d", turns ? "interleaved" : "free", nth,
               total);
}

void
prop_case (void)
{
    bool ts = !strcmp (vt_variant (), "tsan");

    nodes.clear ();
    finalized = 0;
    vos_track = 0;
    switch (ts ? 1 + vt_weight ({ 4, 1 }) : vt_weight ({ 5, 2, 3 })) {
    case 0:
        vt_log ("one thread");
        sequential ();
        break;
    case 1:
        vt_log ("by turns");
        vt_sig (1);
        threads (true);
        break;
    case 2:
        vt_log ("freely");
        vt_sig (2);
        threads (false);
        break;
    }
}
