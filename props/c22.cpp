// VARIANTS default:60000:600000 nosplice:10000:100000 heap:15000:150000 asan:4000:40000
#include "cio.hpp"
#include "splice.hpp"

const char *prop_id = "C22";
const char *prop_rule =
    "A case is 1-2 tasks, each forwarding between two chains of 0-3 buffering and "
    "pass-through layers with generated buffer sizes over sockets or separate "
    "pipe or socket descriptors, possibly with data already inside the layers, "
    "while the far ends feed, drain, shut down, reset and close in generated "
    "pieces; short transfers, would-blocks and errors are injected. Non-trivial: "
    "at least one call through a layer that moved data and returned by itself. "
    "Distinct by the executed trace.";

static int through, fin, plain;

static size_t
gen_size (void)
{
    switch (vt_weight ({ 2, 3, 4, 1 })) {
    case 0:
        return 0;
    case 1:
        return vt_range (1, 4);
    case 2:
        return vt_range (1, 64);
    }
    if (vt_chance (1, 100))
        return vt_pick ({ 65536, 65537, 131072 });
    return vt_range (64, 3000);
}

static Cio *
chain (Session *s, int k, int *layers, bool *rbuf)
{
    int in = s->d[k].in, out = s->d[!k].out;
    Cio *c;
    int n = vt_weight ({ 2, 4, 2, 1 });

    *rbuf = false;
    if (s->shared[k] && vt_bool ())
        c = hev_task_cio_socket_new (AF_UNIX, in);
    else if (s->shared[k]) {
        /* one descriptor cannot be owned twice, so it is duplicated */
        int o = dup (in);
        s->d[!k].out = o;
        s->fds.push_back (o);
        sp_inj[o] = sp_inj[in];
        c = hev_task_cio_fd_new (in, o);
        s->shared[k] = false;
    } else
        c = hev_task_cio_fd_new (in, out);
    for (int i = 0; i < n; i++) {
        if (vt_chance (1, 4)) {
            c = hev_task_cio_push (sh_layer_new (&fin), c);
            *rbuf = false;
            plain++;
            vt_log ("chain %d: pass-through", k);
        } else {
            size_t r = gen_size (), w = gen_size ();
            c = hev_task_cio_push (hev_task_cio_buffer_new (r, w), c);
            *rbuf = r;
            vt_log ("chain %d: buffers of %zu and %zu", k, r, w);
        }
    }
    *layers = n;
    return c;
}

static void
body (Session *s)
{
    Cio *c[2];
    int nl[2];
    bool rb[2], y = vt_chance (1, 3);

    for (int k = 0; k < 2; k++)
        c[k] = chain (s, k, &nl[k], &rb[k]);
    s->either = nl[0] || nl[1] || s->shared[0] || s->shared[1];
    sp_register (s);
    if (y && vt_chance (1, 4))
        s->abort_after = vt_range (1, 60);
    if (nl[0] || nl[1]) {
        for (int k = 0; k < 2; k++) {
            SpDir *d = &s->d[!k]; /* comes out of chain k */
            unsigned char b[200];
            size_t n = vt_range (1, 200);
            /* written, but not flushed */
            if (vt_chance (1, 4)) {
                for (size_t i = 0; i < n; i++)
                    b[i] = d->byte (i);
                ssize_t r = hev_task_cio_write (c[k], b, n, NULL, NULL);
                if (r > 0)
                    d->extra = r;
                vt_log ("%zd bytes written to chain %d beforehand", r, k);
            }
        }
        for (int k = 0; k < 2; k++) {
            unsigned char b[1];
            size_t n = vt_range (1, 200);
            if (rb[k] && vt_chance (1, 3)) {
                sp_feed (&s->d[k], n);
                ssize_t r = hev_task_cio_buffer_peek (c[k], b, 1);
                vt_log ("%zd byte seen in chain %d beforehand", r, k);
            }
        }
    }
    vt_log ("splice, buffer %zu, ends with %s", s->piece,
            s->either ? "either" : "both");
    for (auto &d : s->d)
        d.failed = d.infailed = false;
    s->t = hev_task_self ();
    s->in = true;
    hev_task_cio_splice (c[0], c[1], s->piece, y ? sp_yielder : NULL, s);
    s->t = NULL;
    through += nl[0] || nl[1];
    sp_returned (s);
    s->done = true;
    sp_free (s, false);
    sh_unref (c[0]);
    sh_unref (c[1]);
}

void
prop_case (void)
{
    int n = vt_weight ({ 6, 2 }) + 1;

    ts_clock ();
    vos_poll_limit = 100000;
    ts_env_clear ();
    sp_reset ();
    through = fin = plain = 0;
    ts_init ();
    for (int i = 0; i < n; i++) {
        Session *s = sp_new ();
        s->piece = vt_chance (1, 6) ? vt_range (200, 8000)
                   : vt_bool ()     ? vt_range (1, 32)
                                    : vt_range (32, 200);
        if (vt_chance (1, 100)) {
            s->piece = vt_pick ({ 65536, 131072, 65537, 100000 });
            s->limit = s->limit % 10;
        }
    }
    for (Session *s : sps)
        ts_go ([s] { body (s); });
    ts_at (vos_now () + 1000, sp_tick);
    ts_run ();
    for (Session *s : sps)
        VT_CHECK (s->done, "stall: a call never returned");
    VT_CHECK (fin == plain, "destroyed: %d of %d layers", fin, plain);
    ts_fini ();
    for (Session *s : sps)
        delete s;
    vt_sig (sp_moved);
    vt_sig (sp_finished);
    if (sp_moved && sp_finished && through)
        vt_nontrivial ();
    vt_label ("bytes forwarded", sp_moved);
    vt_label ("injected conditions", sp_injected);
    vt_sample ("sessions=%d bytes=%d injected=%d", n, sp_moved, sp_injected);
}
