// VARIANTS default:750000:6000000 noslice:225000:1500000 heap:150000:1000000 asan:30000:250000
#include "ts.hpp"
#include <deque>

const char *prop_id = "C09";
const char *prop_rule =
    "A case is 1-3 channels (unbuffered or 1-9 buffers of generated size), each "
    "end driven by one task that writes and reads messages of generated sizes, "
    "sleeps, yields and is woken spuriously; every read is compared with a "
    "queue model. Non-trivial: at least three messages were delivered and some "
    "read or write had to wait. Distinct by the executed trace.";

struct Msg {
    uint64_t seed;
    size_t size; /* as stored */
};
struct End {
    HevTaskChannel *c;
    HevTask *h = nullptr;
    std::deque<Msg> in; /* messages waiting to be read here */
    int st = 0;         /* 0 running, 1 in read, 2 in write */
    int done = 0, len;
    uint64_t seq = 0, took = 0;
    End *peer;
    struct Ch *ch;
    int id;
};
struct Ch {
    End e[2];
    size_t size;
    unsigned n;
};
static std::vector<Ch *> *chs;
static uint64_t steps;
static int delivered, waited, cut;

static unsigned char
pat (uint64_t seed, size_t i)
{
    return (unsigned char)(vt_hash (seed, i >> 3) >> (8 * (i & 7)));
}

static size_t
gen_size (Ch *ch)
{
    switch (vt_weight ({ 4, 3, 2, 1 })) {
    case 0:
        return vt_u (20);
    case 1:
        return vt_pick ({ 1, 2, 4, 8, 3, 5, 16 });
    case 2: {
        long s = (long)ch->size + vt_range (-2, 2);
        return s < 0 ? 0 : s;
    }
    }
    if (vt_chance (1, 20))
        return vt_pick ({ 65535, 65536, 65537, 70000, 131073 });
    return vt_u (3000);
}

static void
do_write (End *e, size_t n)
{
    Ch *ch = e->ch;
    End *p = e->peer;
    uint64_t seed = vt_hash (e->id + 1, e->seq++), st;
    unsigned char *b = (unsigned char *)malloc (n + 1);
    size_t stored = n;
    bool wait = p->in.size () >= ch->n;
    ssize_t r;

    for (size_t i = 0; i < n; i++)
        b[i] = pat (seed, i);
    if (ch->n && stored > ch->size) {
        stored = ch->size;
        cut++;
    }
    p->in.push_back ({ seed, stored });
    uint64_t mine = p->took + p->in.size ();
    vt_log ("end %d writes %zu (unread %zu)", e->id, n, p->in.size ());
    st = ++steps;
    e->st = 2;
    r = hev_task_channel_write (e->c, b, n);
    e->st = 0;
    VT_CHECK (r == (ssize_t)stored, "result: write of %zu returned %zd", n, r);
    if (!wait)
        VT_CHECK (st == steps, "blocked: write waited with %u buffers and "
                               "fewer unread messages", ch->n);
    else
        waited++;
    if (ch->n == 0)
        VT_CHECK (p->took >= mine, "sync: write returned before its message "
                                   "was read");
    else
        VT_CHECK (p->in.size () <= ch->n, "capacity: write returned with %zu "
                  "unread messages and %u buffers", p->in.size (), ch->n);
    for (size_t i = 0; i < n; i++)
        VT_CHECK (b[i] == pat (seed, i), "buffer: writer's data changed");
    memset (b, 0xee, n);
    free (b);
    steps++;
}

static void
do_read (End *e, size_t n)
{
    unsigned char *b = (unsigned char *)malloc (n + 16);
    bool had = !e->in.empty ();
    uint64_t st;
    ssize_t r;

    memset (b, 0x3c, n + 16);
    vt_log ("end %d reads %zu (unread %zu)", e->id, n, e->in.size ());
    st = ++steps;
    e->st = 1;
    r = hev_task_channel_read (e->c, b, n);
    e->st = 0;
    if (had)
        VT_CHECK (st == steps, "blocked: read waited with an unread message");
    else
        waited++;
    VT_CHECK (!e->in.empty (), "invented: read returned %zd without a message",
              r);
    Msg m = e->in.front ();
    size_t want = m.size < n ? m.size : n;
    VT_CHECK (r == (ssize_t)want, "result: read of %zu from a message of %zu "
              "returned %zd", n, m.size, r);
    for (size_t i = 0; i < want; i++)
        VT_CHECK (b[i] == pat (m.seed, i), "data: byte %zu of the message is "
                  "wrong", i);
    for (size_t i = want; i < n + 16; i++)
        VT_CHECK (b[i] == 0x3c, "overrun: read wrote past the message");
    e->in.pop_front ();
    e->took++;
    delivered++;
    free (b);
    steps++;
    vt_sig (e->id * 8 + 1);
}

static bool
can_write (End *e)
{
    /* must not leave both ends waiting for each other to read */
    return e->peer->in.size () < e->ch->n ||
           (!e->peer->done && e->peer->st != 2) || e->peer->done == 1;
}

static void
body (End *e)
{
    End *p = e->peer;
    int n = 0, idle = 0;

    steps++;
    while (vt_more (n, e->len, 20)) {
        int op = vt_weight ({ 6, 6, 2, 2, 1 });
        n++;
        vt_sig (e->id * 8 + op);
        if (op == 0 && !(p->in.size () < e->ch->n || p->st != 2))
            op = 1;
        if (op == 1 && e->in.empty () && p->st == 1)
            op = e->ch->n == 0 || p->in.size () < e->ch->n ? 0 : 2;
        switch (op) {
        case 0:
            do_write (e, gen_size (e->ch));
            if (e->ch->n >= 100 && vt_chance (1, 2)) {
                int k = vt_range (1, 400);
                while (k-- && p->in.size () < e->ch->n)
                    do_write (e, vt_u (4));
            }
            break;
        case 1:
            do_read (e, vt_chance (1, 100) ? 200000
                        : vt_bool ()       ? 4096
                                           : gen_size (e->ch));
            break;
        case 2:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 3:
            hev_task_sleep (vt_range (1, 5));
            break;
        case 4: {
            End *o = &(*chs)[vt_u (chs->size ())]->e[vt_u (2)];
            if (!o->done)
                hev_task_wakeup (o->h);
            break;
        }
        }
        steps++;
    }
    /* serve the other end until it is finished too */
    e->done = 1;
    while (p->done == 0) {
        if (!e->in.empty ()) {
            do_read (e, 4096);
            idle = 0;
        } else if (p->st == 1 && p->in.empty ()) {
            do_write (e, vt_u (10));
            idle = 0;
        } else {
            while (hev_task_sleep (1) != 0)
                ;
            VT_CHECK (p->st == 0 || ++idle < 30,
                      "lost: the other end was not resumed");
        }
    }
    steps++;
}

static HevTaskChannel *
huge (size_t size, unsigned n)
{
    HevTaskChannel *a, *b;
    int r;

    vos_alloc_max = 512 << 20;
    a = b = nullptr;
    r = hev_task_channel_new_with_buffers (&a, &b, size, n);
    vt_log ("huge channel %zu x %u: %d", size, n, r);
    if (r == 0) {
        /* it must really hold what it claims to */
        ts_go ([=] {
            std::vector<unsigned char> big (8192, 0x77);
            for (unsigned i = 0; i < 64 && i < n; i++) {
                memset (big.data (), i + 1, big.size ());
                size_t k = size < big.size () ? size : big.size ();
                ssize_t w = hev_task_channel_write (a, big.data (), k);
                VT_CHECK (w == (ssize_t)k, "result: write returned %zd", w);
            }
            for (unsigned i = 0; i < 64 && i < n; i++) {
                size_t k = size < big.size () ? size : big.size ();
                ssize_t w = hev_task_channel_read (b, big.data (), big.size ());
                VT_CHECK (w == (ssize_t)k && (!k || big[0] == i + 1) &&
                              (!k || big[k - 1] == i + 1),
                          "data: big channel message damaged");
            }
            hev_task_channel_destroy (a);
            hev_task_channel_destroy (b);
        });
    }
    return a;
}

void
prop_case (void)
{
    std::vector<Ch *> v;

    chs = &v;
    steps = 0;
    delivered = waited = cut = 0;
    ts_clock ();
    ts_init ();
    if (vt_chance (1, 100)) {
        /* capacities whose total size does not fit */
        static const unsigned s[] = { 0, 1, 0xffff, 0x10000, 0x10001, 0x7fffffff,
                                      0x80000000, 0xffffffff };
        static const unsigned n[] = { 0xffff, 0x10000, 0x10001, 0xfffffff,
                                      0x3fffffff, 0x7fffffff, 0xfffffffe,
                                      0xffffffff };
        huge (s[vt_u (8)], n[vt_u (8)]);
        vt_label ("extreme capacities");
    }
    int nc = vt_weight ({ 4, 2, 1 }) + 1;
    for (int i = 0; i < nc; i++) {
        Ch *c = new Ch;
        c->n = vt_weight ({ 4, 3, 2, 1, 1 });
        if (c->n == 4)
            c->n = vt_range (4, 9);
        c->size = c->n ? vt_pick ({ 1, 2, 3, 4, 7, 8, 16, 64, 0, 4000 }) : 0;
        if (vt_chance (1, 400)) {
            c->n = vt_pick ({ 127, 128, 254, 255, 256, 257, 300 });
            vt_label ("many buffers");
        } else if (c->n && vt_chance (1, 100)) {
            c->size = vt_pick ({ 65535, 65536, 65537, 100000 });
            vt_label ("large messages");
        }
        int r;
        if (c->n == 0 && vt_bool ())
            r = hev_task_channel_new (&c->e[0].c, &c->e[1].c);
        else
            r = hev_task_channel_new_with_buffers (&c->e[0].c, &c->e[1].c,
                                                   c->size, c->n);
        VT_CHECK (r == 0 && c->e[0].c != c->e[1].c, "result: new failed");
        for (int k = 0; k < 2; k++) {
            End *e = &c->e[k];
            e->id = i * 2 + k;
            e->ch = c;
            e->peer = &c->e[!k];
            e->len = vt_range (0, 20);
            e->h = ts_new ();
            hev_task_ref (e->h);
            hev_task_set_priority (e->h, vt_bool () ? 8 : vt_range (0, 15));
        }
        v.push_back (c);
        vt_sig (c->n * 100000 + c->size);
    }
    for (Ch *c : v)
        for (int k = 0; k < 2; k++) {
            End *e = &c->e[k];
            ts_start (e->h, [e] { body (e); });
        }
    ts_run ();
    for (Ch *c : v)
        for (int k = 0; k < 2; k++) {
            VT_CHECK (c->e[k].done, "lost: a task did not finish");
            hev_task_unref (c->e[k].h);
            hev_task_channel_destroy (c->e[k].c);
        }
    ts_fini ();
    if (delivered >= 3 && waited)
        vt_nontrivial ();
    vt_label ("messages delivered", delivered);
    vt_label ("waits", waited);
    vt_label ("messages cut to the buffer size", cut);
    vt_sample ("channels=%d delivered=%d waits=%d first: buffers=%u size=%zu",
               nc, delivered, waited, v[0]->n, v[0]->size);
    for (Ch *c : v)
        delete c;
}
