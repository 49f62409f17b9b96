// VARIANTS default:1400000:3000000 noslice:600000:1500000 heap:160000:400000 asan:160000:300000
#include "cio.hpp"
#include "link.hpp"

const char *prop_id = "C23";
const char *prop_rule =
    "A case is a generated history of creating layers of every kind (descriptor "
    "endpoints with two, one, the same or no descriptors, sockets, null, buffers, "
    "pass-through), pushing, popping, referencing and releasing them, with "
    "descriptor queries, flushes and transfers through whatever is alive. "
    "Non-trivial: at least two layers destroyed and three pushes or pops. "
    "Distinct by the executed history.";

enum { K_FD, K_SOCK, K_NULL, K_BUF, K_PASS, K_MAX };
static const char *const kname[] = { "fd", "socket", "null", "buffer", "pass" };

struct L {
    Cio *c;
    int kind, id, refs = 1, mine = 1; /* all references, those of the caller */
    int fd[2] = { -1, -1 }, peer[2] = { -1, -1 };
    L *next = NULL;
    bool alive = true, below = false; /* part of a chain above it */
    int fin = 0;
};
static std::vector<L *> ls;
static int closes[1024], expected[1024];
static int destroyed, moves, transfers, queries;

static void
after (int call, int fd, long ret, int err)
{
    (void)ret;
    (void)err;
    if (call == VC_close && fd >= 0 && fd < 1024)
        closes[fd]++;
}

static void
die (L *l)
{
    l->alive = false;
    destroyed++;
    for (int i = 0; i < 2; i++)
        if (l->fd[i] >= 0 && !(i && l->fd[1] == l->fd[0]))
            expected[l->fd[i]]++;
    if (l->next) {
        L *n = l->next;
        n->below = false;
        l->next = NULL;
        if (!--n->refs)
            die (n);
    }
}

static void
verify (void)
{
    for (int i = 0; i < 1024; i++)
        VT_CHECK (closes[i] == expected[i],
                  "close: descriptor %d closed %d times, expected %d", i,
                  closes[i], expected[i]);
    for (L *l : ls)
        if (l->kind == K_PASS)
            VT_CHECK (l->fin == !l->alive, "destroy: layer %d destroyed %d "
                      "times, alive %d", l->id, l->fin, l->alive);
}

static L *
bottom (L *l)
{
    while (l->next)
        l = l->next;
    return l;
}

static L *
make (void)
{
    L *l = new L;
    int v[2];

    l->id = ls.size ();
    l->kind = vt_weight ({ 5, 2, 1, 5, 4 });
    switch (l->kind) {
    case K_FD: {
        int form = vt_weight ({ 4, 2, 2, 3, 1 });
        if (form == 3) {
            if (socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, v))
                vt_fail ("harness: socketpair");
            l->fd[0] = l->fd[1] = v[0];
            l->peer[0] = l->peer[1] = v[1];
        } else {
            if (form == 0 || form == 1) {
                if (vt_pipe (v))
                    vt_fail ("harness: pipe");
                l->fd[0] = v[0];
                l->peer[0] = v[1];
            }
            if (form == 0 || form == 2) {
                if (vt_pipe (v))
                    vt_fail ("harness: pipe");
                l->fd[1] = v[1];
                l->peer[1] = v[0];
            }
        }
        l->c = hev_task_cio_fd_new (l->fd[0], l->fd[1]);
        break;
    }
    case K_SOCK:
        if (vt_chance (1, 5)) {
            l->c = hev_task_cio_socket_new (AF_UNIX, -1);
            break;
        }
        if (socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, v))
            vt_fail ("harness: socketpair");
        l->fd[0] = l->fd[1] = v[0];
        l->peer[0] = l->peer[1] = v[1];
        l->c = hev_task_cio_socket_new (AF_UNIX, v[0]);
        break;
    case K_NULL:
        l->c = hev_task_cio_null_new ();
        break;
    case K_BUF:
        l->c = hev_task_cio_buffer_new (vt_pick ({ 0, 1, 20, 500 }),
                                        vt_pick ({ 0, 1, 20, 500 }));
        break;
    case K_PASS:
        l->c = sh_layer_new (&l->fin);
        break;
    }
    if (!l->c)
        vt_fail ("create: layer creation failed");
    vt_log ("create %d: %s (%d, %d)", l->id, kname[l->kind], l->fd[0],
            l->fd[1]);
    ls.push_back (l);
    return l;
}

static L *
pick (std::function<bool (L *)> f)
{
    std::vector<L *> c;
    for (L *l : ls)
        if (l->alive && f (l))
            c.push_back (l);
    return c.empty () ? NULL : c[vt_u (c.size ())];
}

static void
query (L *l)
{
    L *b = bottom (l);
    int r;

    for (int dir = 0; dir < 2; dir++) {
        int e = b->kind == K_FD || b->kind == K_SOCK ? b->fd[dir] : -1;
        r = hev_task_cio_get_fd (l->c, dir);
        VT_CHECK (r == e, "descriptor: layer %d direction %d gives %d, not %d",
                  l->id, dir, r, e);
    }
    r = hev_task_cio_flush (l->c, NULL, NULL);
    VT_CHECK (r == (b->kind <= K_NULL ? 0 : -1),
              "flush: layer %d over %s gives %d", l->id, kname[b->kind], r);
    queries++;
}

static void
transfer (L *l)
{
    L *b = bottom (l);
    char x[8] = "chained", y[8];
    ssize_t r;

    if (b->kind > K_NULL) {
        r = hev_task_cio_read (l->c, y, 1, NULL, NULL);
        VT_CHECK (r == -1, "transfer: a chain without transport reads %zd", r);
        return;
    }
    if (b->kind == K_NULL || b->fd[1] < 0)
        return;
    r = hev_task_cio_write_exact (l->c, x, 8, NULL, NULL);
    VT_CHECK (r == 8, "transfer: write through layer %d gives %zd", l->id, r);
    r = hev_task_cio_flush (l->c, NULL, NULL);
    VT_CHECK (r == 0, "transfer: flush of layer %d gives %zd", l->id, r);
    r = read (b->peer[1], y, 8);
    VT_CHECK (r == 8 && !memcmp (x, y, 8), "transfer: %zd bytes arrived", r);
    if (b->fd[0] >= 0) {
        if (write (b->peer[0], x, 8) != 8)
            vt_fail ("harness: write");
        r = hev_task_cio_read_exact (l->c, y, 8, NULL, NULL);
        VT_CHECK (r == 8 && !memcmp (x, y, 8), "transfer: read gives %zd", r);
    }
    transfers++;
}

static void
release (L *l)
{
    vt_log ("release %d (%d references)", l->id, l->refs);
    l->mine--;
    if (!--l->refs)
        die (l);
    sh_unref (l->c);
}

static void
body (int len)
{
    for (int i = 0; i < len; i++) {
        L *l, *n;
        int w = vt_weight ({ 5, 5, 2, 3, 4, 2, 2, 1 });
        vt_sig (w);
        switch (w) {
        case 0:
            if (ls.size () < 24)
                make ();
            break;
        case 1: /* push a fresh layer on a chain; the chain takes over the
                   caller's reference */
            n = pick ([] (L *x) { return !x->below && x->mine > 0; });
            if (!n || ls.size () >= 24)
                break;
            l = vt_bool () ? make () : pick ([n] (L *x) {
                return x != n && !x->next && x->mine > 0 && x->kind >= K_BUF &&
                       !x->below && bottom (n) != x;
            });
            if (!l || l->next || l->kind < K_BUF)
                break;
            vt_log ("push %d on %d", l->id, n->id);
            VT_CHECK (hev_task_cio_push (l->c, n->c) == l->c,
                      "push: does not return the new top");
            l->next = n;
            n->below = true;
            n->mine--;
            moves++;
            break;
        case 2: /* pop the top */
            l = pick ([] (L *x) { return !x->below && x->mine > 0; });
            if (!l)
                break;
            n = l->next;
            vt_log ("pop %d", l->id);
            l->next = NULL;
            if (n) {
                n->below = false;
                n->mine++;
            }
            l->mine--;
            if (!--l->refs)
                die (l);
            VT_CHECK (hev_task_cio_pop (l->c) == (n ? n->c : NULL),
                      "pop: does not return the next layer");
            moves++;
            break;
        case 3:
            l = pick ([] (L *x) { return x->mine > 0 || x->below; });
            if (!l)
                break;
            vt_log ("reference %d", l->id);
            sh_ref (l->c);
            l->refs++;
            l->mine++;
            break;
        case 4:
            l = pick ([] (L *x) { return x->mine > 0; });
            if (l)
                release (l);
            break;
        case 5:
            l = pick ([] (L *x) { return true; });
            if (l)
                query (l);
            break;
        case 6:
            l = pick ([] (L *x) { return true; });
            if (l)
                transfer (l);
            break;
        case 7:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        }
        verify ();
    }
    for (L *l : ls)
        while (l->alive && l->mine > 0) {
            release (l);
            verify ();
        }
    for (L *l : ls)
        VT_CHECK (!l->alive, "harness: model");
}

void
prop_case (void)
{
    vos_res r;
    bool done = false;

    ts_clock ();
    ts_env_clear ();
    ls.clear ();
    memset (closes, 0, sizeof (closes));
    memset (expected, 0, sizeof (expected));
    destroyed = moves = transfers = queries = 0;
    r = vos_live;
    ts_init ();
    vos_after = after;
    ts_go ([&] {
        body (vt_range (1, 40));
        vos_after = NULL;
        done = true;
    });
    ts_run ();
    VT_CHECK (done, "stall: the task did not finish");
    for (L *l : ls) {
        if (l->peer[0] >= 0)
            close (l->peer[0]);
        if (l->peer[1] >= 0 && l->peer[1] != l->peer[0])
            close (l->peer[1]);
        vt_sig (l->kind);
    }
    ts_fini ();
    VT_CHECK (vos_live.blocks == r.blocks && vos_live.maps == r.maps,
              "leak: %ld blocks left", vos_live.blocks - r.blocks);
    for (L *l : ls)
        delete l;
    if (destroyed >= 2 && moves >= 3)
        vt_nontrivial ();
    vt_label ("layers destroyed", destroyed);
    vt_label ("pushes and pops", moves);
    vt_label ("transfers", transfers);
    vt_sample ("layers=%zu moves=%d transfers=%d queries=%d", ls.size (), moves,
               transfers, queries);
}
