// VARIANTS default:1050000:3000000 noslice:875000:2500000 asan:87500:250000 asanheap:35000:100000
#include "ts.hpp"
#include <deque>

const char *prop_id = "C10";
const char *prop_rule =
    "A case is 1-3 channels whose ends are used by successive tasks (an end is "
    "handed over when its task terminates) that write and read messages and "
    "destroy their end at a generated moment. Non-trivial: an end was destroyed "
    "while the other was blocked or still had unread messages, or an end was "
    "handed over. Distinct by the executed trace.";

struct Msg {
    uint64_t seed;
    size_t size;
};
struct End {
    HevTaskChannel *c;
    HevTask *h = nullptr;
    std::deque<Msg> in;
    int st = 0; /* 0 running, 1 in read, 2 in write */
    int open = 1, heirs;
    uint64_t seq = 0, took = 0;
    bool ok = false; /* the pending write's condition has become true */
    End *peer;
    struct Ch *ch;
    int id;
};
struct Ch {
    End e[2];
    size_t size;
    unsigned n;
};
static std::vector<Ch *> *chs;
static uint64_t steps;
static int delivered, blocked_close, unread_close, handed, failed;

static unsigned char
pat (uint64_t seed, size_t i)
{
    return (unsigned char)(vt_hash (seed, i >> 3) >> (8 * (i & 7)));
}

static void
do_write (End *e, size_t n)
{
    Ch *ch = e->ch;
    End *p = e->peer;
    uint64_t seed = vt_hash (e->id + 1, e->seq++), st;
    unsigned char *b = (unsigned char *)malloc (n + 1);
    size_t stored = n;
    bool wait = false, dead = !p->open;
    ssize_t r;

    for (size_t i = 0; i < n; i++)
        b[i] = pat (seed, i);
    if (ch->n && stored > ch->size)
        stored = ch->size;
    if (!dead) {
        wait = p->in.size () >= ch->n;
        e->ok = !wait;
        p->in.push_back ({ seed, stored });
    }
    vt_log ("end %d writes %zu (unread %zu, peer open %d)", e->id, n,
            p->in.size (), p->open);
    st = ++steps;
    e->st = 2;
    r = hev_task_channel_write (e->c, b, n);
    e->st = 0;
    if (dead || !wait)
        VT_CHECK (st == steps, "blocked: write waited");
    if (dead || !e->ok) {
        VT_CHECK (dead || !p->open, "early: write returned %zd before its "
                                    "message could be taken", r);
        VT_CHECK (r < 0, "result: write to a closed channel returned %zd", r);
        failed++;
    } else {
        VT_CHECK (r == (ssize_t)stored, "result: write of %zu returned %zd", n,
                  r);
    }
    memset (b, 0xee, n);
    free (b);
    steps++;
}

static void
do_read (End *e, size_t n)
{
    End *p = e->peer;
    unsigned char *b = (unsigned char *)malloc (n + 16);
    bool had = !e->in.empty (), dead = !p->open;
    uint64_t st;
    ssize_t r;

    memset (b, 0x3c, n + 16);
    vt_log ("end %d reads %zu (unread %zu, peer open %d)", e->id, n,
            e->in.size (), p->open);
    st = ++steps;
    e->st = 1;
    r = hev_task_channel_read (e->c, b, n);
    e->st = 0;
    vt_log ("end %d read returned %zd", e->id, r);
    if (had || dead)
        VT_CHECK (st == steps, "blocked: read waited");
    if (e->in.empty ()) {
        VT_CHECK (!p->open, "early: read returned %zd without a message", r);
        VT_CHECK (r < 0, "result: read returned %zd after the other end was "
                         "destroyed and everything read", r);
        for (size_t i = 0; i < n + 16; i++)
            VT_CHECK (b[i] == 0x3c, "overrun: failed read wrote to the buffer");
        failed++;
    } else {
        Msg m = e->in.front ();
        size_t want = m.size < n ? m.size : n;
        VT_CHECK (r == (ssize_t)want, "lost: read of %zu from a message of "
                  "%zu returned %zd", n, m.size, r);
        for (size_t i = 0; i < want; i++)
            VT_CHECK (b[i] == pat (m.seed, i), "data: byte %zu is wrong", i);
        for (size_t i = want; i < n + 16; i++)
            VT_CHECK (b[i] == 0x3c, "overrun: read wrote past the message");
        e->in.pop_front ();
        e->took++;
        delivered++;
        if (p->st == 2 && e->in.size () <= e->ch->n)
            p->ok = true;
    }
    free (b);
    steps++;
}

static void
do_close (End *e)
{
    End *p = e->peer;
    uint64_t st = ++steps;

    vt_log ("end %d is destroyed (peer state %d, unread there %zu)", e->id,
            p->st, p->in.size ());
    if (p->open && p->st)
        blocked_close++;
    if (p->open && !p->in.empty () && e->ch->n)
        unread_close++;
    e->open = 0;
    hev_task_channel_destroy (e->c);
    VT_CHECK (st == steps, "blocked: destroy suspended the task");
    vt_sig (0x1000 + e->id * 4 + p->st);
}

static void body (End *e);

static void
succeed (End *e)
{
    HevTask *old = e->h;

    e->heirs--;
    e->h = ts_new ();
    handed++;
    vt_log ("end %d handed over", e->id);
    hev_task_set_priority (e->h, vt_bool () ? 8 : vt_range (0, 15));
    ts_start (e->h, [e] { body (e); });
    (void)old;
}

static void
body (End *e)
{
    End *p = e->peer;
    bool deep = e->ch->n > 3;
    int n = 0, len = vt_range (0, deep ? 3 * e->ch->n : 10);

    steps++;
    while (vt_more (n, len, 8)) {
        int op = deep ? vt_weight ({ 20, 5, 1, 1, 1 })
                      : vt_weight ({ 6, 6, 2, 2, 1 });
        n++;
        vt_sig (e->id * 8 + op);
        if (p->open) {
            /* never leave both ends waiting for each other */
            if (op == 0 && p->in.size () >= e->ch->n && p->st == 2)
                op = 1;
            if (op == 1 && e->in.empty () && p->st == 1)
                op = e->ch->n == 0 || p->in.size () < e->ch->n ? 0 : 2;
        }
        switch (op) {
        case 0:
            do_write (e, vt_bool () ? vt_u (12) : vt_u (100));
            break;
        case 1:
            do_read (e, vt_chance (1, 4) ? vt_u (20) : 128);
            break;
        case 2:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 3:
            hev_task_sleep (vt_range (1, 5));
            break;
        case 4: {
            End *o = &(*chs)[vt_u (chs->size ())]->e[vt_u (2)];
            if (o->open && o->h && (o->st || o == e))
                hev_task_wakeup (o->h);
            break;
        }
        }
        steps++;
    }
    if (e->heirs > 0) {
        succeed (e);
        return;
    }
    if (!p->open && vt_bool ()) {
        /* everything that was buffered is still there */
        while (!e->in.empty ())
            do_read (e, 128);
        do_read (e, 8);
        do_write (e, 8);
    }
    do_close (e);
}

void
prop_case (void)
{
    std::vector<Ch *> v;
    vos_res live0, live1;
    bool exact = strncmp (vt_variant (), "default", 7) != 0;

    chs = &v;
    steps = 0;
    delivered = blocked_close = unread_close = handed = failed = 0;
    ts_clock ();
    live0 = vos_live;
    ts_init ();
    live1 = vos_live;
    int nc = vt_weight ({ 5, 2, 1 }) + 1;
    for (int i = 0; i < nc; i++) {
        Ch *c = new Ch;
        c->n = vt_weight ({ 4, 3, 2, 1 });
        if (vt_chance (1, 100))
            c->n = vt_range (4, 40);
        c->size = c->n ? vt_pick ({ 8, 1, 64, 16 }) : 0;
        VT_CHECK (hev_task_channel_new_with_buffers (&c->e[0].c, &c->e[1].c,
                                                     c->size, c->n) == 0,
                  "result: new failed");
        for (int k = 0; k < 2; k++) {
            End *e = &c->e[k];
            e->id = i * 2 + k;
            e->ch = c;
            e->peer = &c->e[!k];
            e->heirs = vt_weight ({ 4, 2, 1 });
        }
        v.push_back (c);
        vt_sig (c->n * 1000 + c->size);
    }
    for (Ch *c : v)
        for (int k = 0; k < 2; k++) {
            End *e = &c->e[k];
            e->h = ts_new ();
            hev_task_set_priority (e->h, vt_bool () ? 8 : vt_range (0, 15));
            ts_start (e->h, [e] { body (e); });
        }
    ts_run ();
    for (Ch *c : v)
        for (int k = 0; k < 2; k++)
            VT_CHECK (!c->e[k].open, "lost: a task did not finish");
    if (exact)
        VT_CHECK (vos_live.bytes == live1.bytes &&
                      vos_live.blocks == live1.blocks,
                  "leak: %ld bytes remain after both ends were destroyed",
                  vos_live.bytes - live1.bytes);
    ts_fini ();
    VT_CHECK (vos_live.bytes == live0.bytes && vos_live.maps == live0.maps,
              "leak: %ld bytes remain after the system ended",
              vos_live.bytes - live0.bytes);
    if (blocked_close || unread_close || handed)
        vt_nontrivial ();
    vt_label ("messages delivered", delivered);
    vt_label ("destroyed while the peer was blocked", blocked_close);
    vt_label ("destroyed with messages unread at the peer", unread_close);
    vt_label ("ends handed over", handed);
    vt_label ("calls that failed after the peer was gone", failed);
    vt_sample ("channels=%d delivered=%d blocked closes=%d unread closes=%d "
               "handovers=%d", nc, delivered, blocked_close, unread_close,
               handed);
    for (Ch *c : v)
        delete c;
}
