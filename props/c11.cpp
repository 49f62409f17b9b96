// VARIANTS default:1000000:4000000 noslice:500000:2000000 asan:50000:200000
#include "ts.hpp"
#include <deque>

const char *prop_id = "C11";
const char *prop_rule =
    "A case is a task holding 1-5 (rarely up to 40) channel ends that it adds "
    "to and removes from "
    "1-2 selectors, selects for read or write with generated timeouts and reads "
    "or writes directly, against one task per other end that writes, reads and "
    "sleeps, and sometimes destroys its end; readiness is predicted by a queue model. Non-trivial: a select "
    "waited and returned a channel, and two channels were ready at once or one "
    "selection failed by timeout. Distinct by the executed trace.";

struct Msg {
    uint64_t seed;
    size_t size;
};
struct Side {
    HevTaskChannel *c;
    std::deque<Msg> in;
    int st = 0; /* 2: blocked in write */
};
struct Ch {
    Side hub, peer;
    unsigned n;
    int sel = -1;
    int id, done = 0, len;
    bool gone = false; /* the peer end is destroyed */
    bool dead = false; /* and this one too */
    uint64_t seq = 0;
    uint64_t rs = 0, ws = 0; /* readable / writable since */
    HevTask *h;
};
static std::vector<Ch *> *chs;
static HevTask *hubtask;
static uint64_t steps;
static int hubdone;
static unsigned hubsteps;
static int in_sel = -1, in_write, in_inf, hits; /* the hub's pending select */
static int waits, many, touts, picks, gones;

static unsigned char
pat (uint64_t seed, size_t i)
{
    return (unsigned char)vt_hash (seed, i);
}

static bool
readable (Ch *c)
{
    return !c->hub.in.empty ();
}

static bool
writable (Ch *c)
{
    return c->peer.in.size () < c->n;
}

static void
put (Ch *c, bool hub)
{
    Side *me = hub ? &c->hub : &c->peer, *ot = hub ? &c->peer : &c->hub;
    uint64_t seed = vt_hash (c->id * 2 + hub + 1, c->seq++);
    unsigned char b[16];
    size_t n = vt_u (9);
    ssize_t r;

    for (size_t i = 0; i < n; i++)
        b[i] = pat (seed, i);
    if (!hub && c->hub.in.empty ())
        c->rs = vos_now ();
    ot->in.push_back ({ seed, n });
    vt_log ("%s writes %d (unread there %zu)", hub ? "hub" : "peer", c->id,
            ot->in.size ());
    steps++;
    hits++;
    if (c->gone) {
        r = hev_task_channel_write (me->c, b, n);
        ot->in.pop_back ();
        VT_CHECK (r == -1, "result: write without a peer returned %zd", r);
        return;
    }
    me->st = 2;
    r = hev_task_channel_write (me->c, b, n);
    me->st = 0;
    steps++;
    VT_CHECK (r == (ssize_t)n, "result: write returned %zd", r);
}

static void
get (Ch *c, bool hub)
{
    Side *me = hub ? &c->hub : &c->peer;
    unsigned char b[16];
    Msg m = me->in.front ();
    ssize_t r;

    vt_log ("%s reads %d (unread %zu)", hub ? "hub" : "peer", c->id,
            me->in.size ());
    if (!hub && me->in.size () == c->n)
        c->ws = vos_now ();
    if (!hub && me->in.size () == c->n + 1 && c->n)
        c->ws = vos_now (); /* not yet writable, but will be read on */
    me->in.pop_front ();
    hits++;
    steps++;
    r = hev_task_channel_read (me->c, b, sizeof (b));
    steps++;
    VT_CHECK (r == (ssize_t)m.size, "result: read returned %zd", r);
    for (size_t i = 0; i < m.size; i++)
        VT_CHECK (b[i] == pat (m.seed, i), "data: message damaged");
}

static void
do_select (HevTaskChannelSelect *s, int si, bool wr, int timeout)
{
    HevTaskChannel *c;
    uint64_t t0 = vos_now (), st;
    bool any = false, ready = false;
    int nready = 0;

    for (Ch *x : *chs)
        if (x->sel == si) {
            any = true;
            if (wr && x->gone)
                continue; /* says nothing: no write can succeed */
            if (wr ? writable (x) : readable (x)) {
                ready = true;
                nready++;
            }
        }
    if (nready > 1)
        many++;
    in_sel = si;
    in_write = wr;
    in_inf = timeout < 0;
    hits = 0;
    st = ++steps;
    vt_log ("hub selects %s on %d, timeout %d", wr ? "write" : "read", si,
            timeout);
    c = wr ? hev_task_channel_select_write (s, timeout)
           : hev_task_channel_select_read (s, timeout);
    in_sel = -1;
    in_inf = 0;
    if (ready || !any || timeout == 0)
        VT_CHECK (st == steps, "blocked: select waited although %s",
                  ready ? "a channel was ready" : "it must not");
    steps++;
    if (c) {
        Ch *f = nullptr;
        uint64_t since = ~0ull;
        for (Ch *x : *chs)
            if (x->hub.c == c && !x->dead)
                f = x;
        VT_CHECK (f, "wrong: select returned an unknown channel");
        vt_log ("  returned %d after %llu ns", f->id,
                (unsigned long long)(vos_now () - t0));
        VT_CHECK (f->sel == si, "removed: select returned a channel that is "
                                "not in the selector");
        VT_CHECK (wr ? writable (f) || f->gone : readable (f),
                  "notready: select returned a channel that is not ready");
        if (!ready && !(wr && f->gone)) {
            waits++;
            for (Ch *x : *chs)
                if (x->sel == si && !(wr && x->gone) &&
                    (wr ? writable (x) : readable (x))) {
                    uint64_t t = wr ? x->ws : x->rs;
                    if (t < since)
                        since = t;
                }
            if (since < t0)
                since = t0;
            VT_CHECK (vos_now () <= since,
                      "late: a channel was ready %llu ns before select returned",
                      (unsigned long long)(vos_now () - since));
        }
        picks++;
        vt_sig (0x100 + f->id * 2 + wr);
    } else {
        uint64_t el = vos_now () - t0;
        vt_log ("  returned nothing after %llu ns", (unsigned long long)el);
        if (any) {
            VT_CHECK (!ready, "missed: select returned nothing although a "
                              "channel was ready");
            for (Ch *x : *chs)
                if (x->sel == si && !(wr && x->gone))
                    VT_CHECK (!(wr ? writable (x) : readable (x)),
                              "missed: select returned nothing although "
                              "channel %d is ready", x->id);
            VT_CHECK (timeout >= 0, "early: select without timeout returned "
                                    "nothing");
            VT_CHECK (el + hits * MS >= (uint64_t)timeout * MS,
                      "early: select with timeout %d ended after %llu ns",
                      timeout, (unsigned long long)el);
            VT_CHECK (el <= (uint64_t)timeout * MS + hits * MS,
                      "late: select with timeout %d ended after %llu ns",
                      timeout, (unsigned long long)el);
            touts++;
        }
        vt_sig (0x180);
    }
}

/* the hub selects without a timeout and no other peer can end that */
static bool
last_hope (Ch *c)
{
    if (!in_inf || in_sel != c->sel)
        return false;
    for (Ch *x : *chs)
        if (x != c && x->sel == in_sel && !x->gone)
            return false;
    return true;
}

static void
peer_body (Ch *c)
{
    int n = 0;

    while (vt_more (n, c->len, 10)) {
        n++;
        switch (vt_weight ({ 40, 30, 30, 10, 10, 3 })) {
        case 5:
            if (c->hub.st == 2 || last_hope (c))
                break;
            vt_log ("peer destroys %d", c->id);
            hits++;
            c->gone = true;
            c->done = 1;
            gones++;
            hev_task_channel_destroy (c->peer.c);
            return;
        case 0:
            if (c->hub.in.size () < c->n ||
                (c->hub.st != 2 && !(in_inf && in_write)))
                put (c, false);
            break;
        case 1:
            if (!c->peer.in.empty ())
                get (c, false);
            break;
        case 2:
            if (vt_bool ())
                hev_task_sleep (vt_range (1, 6));
            else
                hev_task_usleep (vt_range (1, 6000));
            break;
        case 3:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 4:
            if (!hubdone) {
                hits++;
                hev_task_wakeup (hubtask);
            }
            break;
        }
        steps++;
    }
    c->done = 1;
    /* serve the hub until it is finished */
    unsigned nap = 3, seen = 0;
    while (!hubdone) {
        while (!c->peer.in.empty ())
            get (c, false);
        if (in_inf && in_sel == c->sel && c->hub.in.empty () && !in_write)
            put (c, false);
        /* the hub may wait for very long */
        nap = seen != hubsteps ? 3 : nap < 1 << 24 ? nap * 2 : nap;
        seen = hubsteps;
        if (!hubdone)
            hev_task_sleep (nap);
        steps++;
    }
}

static void
hub_body (int ns)
{
    HevTaskChannelSelect *s[2];
    bool wr = true;
    int n = 0, len = vt_range (2, 30 + 2 * (chs->size () > 5 ? chs->size () : 0));

    for (Ch *c : *chs)
        if (!c->n)
            wr = false;
    for (int i = 0; i < ns; i++) {
        s[i] = hev_task_channel_select_new ();
        VT_CHECK (s[i], "result: selector creation failed");
    }
    while (vt_more (n, len, 25)) {
        int op = vt_weight ({ 6, 6, 4, 2, 3, 3, 2, 1 });
        Ch *c = (*chs)[vt_u (chs->size ())];
        int si = (int)vt_u (ns);
        n++;
        hubsteps++;
        vt_sig (op * 8 + c->id);
        switch (op) {
        case 0:
        case 1: {
            static const int to[] = { 0, 1, 3, 10, 25, -1, -1, -7 };
            int t = to[vt_u (8)];
            if (vt_chance (1, 30))
                t = vt_pick ({ 1000, 32768, 65536, 65537, 100000, 2147483,
                               4294968, 0x7fffffff });
            if (t < 0) {
                int live = 0, gone = 0;
                for (Ch *x : *chs)
                    if (x->sel == si)
                        (x->gone ? gone : live)++;
                /* nobody would end it */
                if (gone && (!live || op == 1))
                    t = 4;
            }
            if (op == 1 && wr && t < 0)
                for (Ch *x : *chs)
                    if (x->sel == si && x->peer.st == 2)
                        t = 4;
            do_select (s[si], si, op == 1 && wr, t);
            break;
        }
        case 2:
            if (c->sel < 0 && !c->dead) {
                vt_log ("hub adds %d to %d", c->id, si);
                hev_task_channel_select_add (s[si], c->hub.c);
                c->sel = si;
            }
            break;
        case 3:
            if (c->sel >= 0) {
                vt_log ("hub removes %d", c->id);
                hev_task_channel_select_del (s[c->sel], c->hub.c);
                c->sel = -1;
            }
            if (c->gone && c->sel < 0 && !c->dead && vt_bool ()) {
                vt_log ("hub destroys %d", c->id);
                hev_task_channel_destroy (c->hub.c);
                c->dead = true;
                c->hub.in.clear ();
            }
            break;
        case 4:
            if (!c->hub.in.empty ())
                get (c, true);
            else if (c->gone && !c->dead) {
                char b[4];
                ssize_t r = hev_task_channel_read (c->hub.c, b, sizeof (b));
                VT_CHECK (r == -1, "result: read without a peer returned %zd",
                          r);
            }
            break;
        case 5:
            if (c->dead)
                break;
            if (c->peer.in.size () < c->n || c->gone ||
                (c->peer.st != 2 && vt_chance (1, 3)))
                put (c, true);
            break;
        case 6:
            hev_task_sleep (vt_range (1, 8));
            break;
        case 7:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        }
        steps++;
    }
    /* take everything the others still send */
    for (Ch *c : *chs)
        if (c->sel < 0 && !c->dead) {
            c->sel = (int)vt_u (ns);
            hev_task_channel_select_add (s[c->sel], c->hub.c);
        }
    for (;;) {
        bool more = false;
        for (Ch *c : *chs)
            more |= !c->done || !c->hub.in.empty ();
        if (!more)
            break;
        for (int i = 0; i < ns; i++) {
            hubsteps++;
            do_select (s[i], i, false, 5);
            for (Ch *c : *chs)
                if (c->sel == i && !c->hub.in.empty () && !vt_chance (1, 3))
                    get (c, true);
        }
    }
    for (Ch *c : *chs)
        if (c->sel >= 0)
            hev_task_channel_select_del (s[c->sel], c->hub.c);
    for (int i = 0; i < ns; i++)
        hev_task_channel_select_destroy (s[i]);
    hubdone = 1;
}

void
prop_case (void)
{
    std::vector<Ch *> v;
    vos_res live0;
    int nc = vt_chance (1, 150) ? vt_range (6, 40) : vt_range (1, 5), ns = vt_chance (1, 4) ? 2 : 1;
    bool unbuf = vt_chance (1, 3);

    chs = &v;
    steps = 0;
    hubdone = 0;
    in_sel = -1;
    in_inf = 0;
    hubsteps = 0;
    waits = many = touts = picks = gones = 0;
    ts_clock ();
    vos_poll_limit = 20000;
    live0 = vos_live;
    ts_init ();
    for (int i = 0; i < nc; i++) {
        Ch *c = new Ch;
        c->n = unbuf ? vt_range (0, 2) : vt_range (1, 3);
        c->id = i;
        c->len = vt_range (0, 16);
        VT_CHECK (hev_task_channel_new_with_buffers (&c->hub.c, &c->peer.c, 16,
                                                     c->n) == 0,
                  "result: channel creation failed");
        v.push_back (c);
        vt_sig (c->n);
    }
    /* of those that wake at the same time any may be the first */
    bool first = vt_bool ();
    for (int i = 0; i < 2; i++) {
        if (first == !i)
            hubtask = ts_go ([ns] { hub_body (ns); },
                             vt_bool () ? 8 : vt_range (0, 15));
        else
            for (Ch *c : v)
                c->h = ts_go ([c] { peer_body (c); },
                              vt_bool () ? 8 : vt_range (0, 15));
    }
    ts_run ();
    VT_CHECK (hubdone, "lost: the selecting task did not finish");
    for (Ch *c : v) {
        if (!c->dead)
            hev_task_channel_destroy (c->hub.c);
        if (!c->gone)
            hev_task_channel_destroy (c->peer.c);
    }
    ts_fini ();
    VT_CHECK (vos_live.bytes == live0.bytes, "leak: %ld bytes remain",
              vos_live.bytes - live0.bytes);
    if (waits && (many || touts))
        vt_nontrivial ();
    vt_label ("selections", picks);
    vt_label ("selections that waited", waits);
    vt_label ("several ready at once", many);
    vt_label ("timeouts", touts);
    vt_label ("peers destroyed early", gones);
    vt_sample ("channels=%d selectors=%d selected=%d waited=%d timeouts=%d", nc,
               ns, picks, waits, touts);
    for (Ch *c : v)
        delete c;
}
