// VARIANTS default:60000:600000 nosplice:60000:600000 heap:15000:150000 asan:4000:40000
#include "splice.hpp"

const char *prop_id = "C19";
const char *prop_rule =
    "A case is 1-3 tasks, each forwarding between two endpoints (one socket, or "
    "separate pipe or socket descriptors) with a generated buffer size, while the "
    "far ends feed, drain, shut down, reset and close in generated pieces; short "
    "transfers, would-blocks and errors are injected. Non-trivial: at least one "
    "call that moved data and returned by itself. Distinct by the executed trace.";

static int only;

static int
setup_fault (int call, int fd)
{
    (void)fd;
    if ((call == VC_pipe || call == VC_epoll_ctl || call == VC_malloc) &&
        only-- == 0)
        return call == VC_pipe ? EMFILE : ENOMEM;
    return 0;
}

static void
body (Session *s)
{
    vos_fdset a, b;
    size_t bs = s->piece;
    int fl[4], n = 0;
    bool y = vt_chance (1, 3);

    sp_register (s);
    for (int fd : s->fds)
        fl[n++] = fcntl (fd, F_GETFL);
    if (y && vt_chance (1, 4))
        s->abort_after = vt_range (1, 60);
    vt_log ("splice %s%s buffer %zu", s->shared[0] ? "shared " : "separate ",
            s->shared[1] ? "shared" : "separate", bs);
    bool alone = sps.size () == 1;
    /* the set-up of the call fails */
    if (alone && vt_chance (1, 12)) {
        only = vt_range (0, 6);
        vos_fault = setup_fault;
        s->abort_after = 1;
        y = true;
    }
    vos_fds (&a);
    s->t = hev_task_self ();
    s->in = true;
    hev_task_io_splice (s->d[0].in, s->d[1].out, s->d[1].in, s->d[0].out, bs,
                        y ? sp_yielder : NULL, s);
    s->t = NULL;
    if (alone) {
        vos_fds (&b);
        int bad = 0;
        for (int i = 0; i < 16; i++)
            bad += __builtin_popcountll (b.w[i] & ~a.w[i]);
        VT_CHECK (!bad, "leak: %d descriptors left open", bad);
    }
    if (vos_fault == setup_fault) {
        s->in = false;
        vos_fault = sp_fault;
        vt_label ("set-up failures", 1);
    } else {
        sp_returned (s);
    }
    n = 0;
    for (int fd : s->fds)
        VT_CHECK (fcntl (fd, F_GETFL) == fl[n++],
                  "descriptor: the caller's descriptor was closed or changed");
    s->done = true;
    for (int fd : s->fds)
        hev_task_del_fd (hev_task_self (), fd);
}

void
prop_case (void)
{
    int n = vt_weight ({ 6, 2, 1 }) + 1;

    ts_clock ();
    vos_poll_limit = 60000;
    ts_env_clear ();
    sp_reset ();
    vos_res r = vos_live;
    ts_init ();
    for (int i = 0; i < n; i++) {
        Session *s = sp_new ();
        s->either = s->shared[0] || s->shared[1];
        s->piece = vt_chance (1, 6) ? vt_range (2000, 20000)
                   : vt_bool ()     ? vt_range (1, 64)
                                    : vt_range (64, 2000);
        if (vt_chance (1, 100)) {
            s->piece = vt_pick ({ 65536, 131072, 65537, 100000 });
            s->limit = s->limit % 10;
        }
    }
    for (Session *s : sps)
        ts_go ([s] { body (s); });
    ts_at (vos_now () + 1000, sp_tick);
    ts_run ();
    for (Session *s : sps) {
        VT_CHECK (s->done, "stall: a call never returned");
        sp_free (s, true);
    }
    ts_fini ();
    VT_CHECK (vos_live.blocks == r.blocks && vos_live.maps == r.maps,
              "leak: %ld blocks, %ld mappings left", vos_live.blocks - r.blocks,
              vos_live.maps - r.maps);
    for (Session *s : sps)
        delete s;
    vt_sig (sp_moved);
    vt_sig (sp_finished);
    if (sp_moved && sp_finished)
        vt_nontrivial ();
    vt_label ("bytes forwarded", sp_moved);
    vt_label ("injected conditions", sp_injected);
    vt_sample ("sessions=%d bytes=%d injected=%d", n, sp_moved, sp_injected);
}
