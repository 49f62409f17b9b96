// VARIANTS default:900000:2500000 heap:120000:400000 noslice:90000:300000 asan:36000:100000
#include "cio.hpp"
#include "link.hpp"
#include <sys/ioctl.h>

const char *prop_id = "C20";
const char *prop_rule =
    "A case is a chain of 0-4 buffering and pass-through layers with generated "
    "buffer sizes over a descriptor pair, a socket or a null endpoint, used by one "
    "task or by a reading and a writing task through plain, vectored, exact, peek "
    "and flush calls while the far ends feed and drain in generated pieces; short "
    "transfers, would-blocks and errors are injected. Non-trivial: data moved "
    "both ways through at least one layer, or a call waited. Distinct by the "
    "executed trace.";

enum { T_FD, T_SOCK, T_NULL };
enum { OP_NONE, OP_READ, OP_WRITE };

static Link I, O;   /* incoming: I.rfd is the chain's; outgoing: O.wfd */
static Cio *top;
static bool top_buffer, top_rbuf;
static int kind, layers;
static uint64_t written; /* accepted by the chain */
static bool in_err, out_err;
static int op[2], live, waits, ops, injected, peeks;
static uint64_t last_tick;
static int ticks, tick_limit;
static size_t scale;
static std::vector<size_t> rsizes, wsizes;

struct Inj {
    int on, err, again, after;
    size_t cap;
};
static Inj injs[1024];

static bool
mine (int call, int fd)
{
    return call >= VC_read && call <= VC_sendmsg && fd >= 0 && fd < 1024 &&
           injs[fd].on;
}

static bool
writes (int call)
{
    return call == VC_write || call == VC_writev || call == VC_send ||
           call == VC_sendto || call == VC_sendmsg;
}

static int
fault (int call, int fd)
{
    if (!mine (call, fd))
        return 0;
    Inj *i = &injs[fd];
    if (i->after) {
        i->after--;
        return 0;
    }
    if (i->again) {
        i->again--;
        injected++;
        vos_rearm (fd);
        return EAGAIN;
    }
    if (i->err) {
        int e = i->err;
        i->err = 0;
        injected++;
        (writes (call) ? out_err : in_err) = true;
        return e;
    }
    return 0;
}

static size_t
shorten (int call, int fd, size_t want)
{
    return mine (call, fd) && injs[fd].cap && injs[fd].cap < want ? injs[fd].cap
                                                                  : want;
}

static uint64_t
queued (int fd)
{
    int n = 0;
    return ioctl (fd, FIONREAD, &n) == 0 ? n : 0;
}

static bool
can (int fd, short ev)
{
    struct pollfd p = { fd, ev, 0 };
    return poll (&p, 1, 0) > 0;
}

static void
tick (void)
{
    if (!live)
        return;
    if (vos_now () > last_tick) {
        for (int i = 0; i < 2; i++) {
            if (op[i] == OP_READ)
                VT_CHECK (!queued (I.rfd) && !I.weof,
                          "stall: a read waits although the transport has "
                          "something to read");
            if (op[i] == OP_WRITE)
                VT_CHECK (!can (O.wfd, POLLOUT),
                          "stall: a write or flush waits although the "
                          "transport is writable");
        }
    }
    last_tick = vos_now ();
    if (++ticks > tick_limit) {
        lk_get (&O, 65536);
        if (!I.weof) {
            if (O.rfd == I.wfd) {
                I.weof = true;
                shutdown (I.wfd, SHUT_WR);
            } else {
                lk_close_w (&I);
            }
        }
    } else {
        if (vt_chance (1, 2))
            lk_put (&I, vt_chance (1, 10) ? vt_range (1, 5000)
                                          : vt_range (1, 2 * scale));
        if (vt_chance (1, 2))
            lk_get (&O, vt_chance (1, 10) ? vt_range (1, 5000)
                                          : vt_range (1, 2 * scale));
    }
    ts_at (vos_now () + 1000, tick);
}

static size_t
gen_n (void)
{
    switch (vt_weight ({ 5, 3, 1, 1 })) {
    case 0:
        return vt_range (1, 2 * scale);
    case 1:
        return vt_pick ({ 1, 2, 3, 7, 8 });
    case 2:
        return vt_range (0, 1) ? scale * 5 : vt_range (1, 3000);
    }
    return 0;
}

static void
do_read (int who)
{
    bool exact = vt_bool (), vec = vt_bool ();
    size_t n = gen_n ();
    Vec v (n, vec ? 6 : 1);
    ssize_t r;
    int inj0 = injected;
    uint64_t t = vos_now ();

    vt_log ("read %s%s of %zu in %zu parts", vec ? "v" : "",
            exact ? " exact" : "", n, v.v.size ());
    bool e0 = in_err;
    in_err = false;
    op[who] = n ? OP_READ : OP_NONE;
    if (vec)
        r = exact ? hev_task_cio_readv_exact (top, v.v.data (), v.v.size (),
                                              NULL, NULL)
                  : hev_task_cio_readv (top, v.v.data (), v.v.size (), NULL,
                                        NULL);
    else
        r = exact ? hev_task_cio_read_exact (top, v.b.data (), n, NULL, NULL)
                  : hev_task_cio_read (top, v.b.data (), n, NULL, NULL);
    op[who] = OP_NONE;
    ops++;
    waits += vos_now () > t;
    vt_log ("  gives %zd", r);
    vt_sig (r);
    VT_CHECK (r <= (ssize_t)n, "result: read returned %zd of %zu", r, n);
    if (n == 0)
        VT_CHECK (vos_now () == t || injected > inj0, "stall: an empty read waited");
    if (kind == T_NULL) {
        VT_CHECK (r == 0 && vos_now () == t,
                  "result: read of the null endpoint gave %zd", r);
        v.intact (0);
        return;
    }
    if (r < 0) {
        VT_CHECK (r == -1 && (in_err || e0), "result: read failed with %zd "
                  "without a reason", r);
        /* reported */
        return;
    }
    v.intact (r);
    if (n)
        lk_take (&I, v.b.data (), n, r, false);
    bool end = I.weof && I.got == I.sent;
    if (r == 0)
        VT_CHECK (n == 0 || end, "result: end of stream reported before it");
    if (exact)
        VT_CHECK (r == (ssize_t)n || end || in_err,
                  "result: exact read returned %zd of %zu", r, n);
    /* an error may have been hidden behind data; it may show later */
    in_err = in_err || (e0 && r == 0);
    if (r > 0 && !exact)
        in_err = in_err || e0;
}

static void
do_write (int who)
{
    bool exact = vt_bool (), vec = vt_bool ();
    size_t n = gen_n ();
    Vec v (n, vec ? 6 : 1);
    ssize_t r;
    int inj0 = injected;
    uint64_t t = vos_now ();

    for (size_t i = 0; i < n; i++)
        v.b[i] = lk_byte (&O, written + i);
    std::vector<unsigned char> keep = v.b;
    vt_log ("write %s%s of %zu in %zu parts", vec ? "v" : "",
            exact ? " exact" : "", n, v.v.size ());
    out_err = false;
    op[who] = n ? OP_WRITE : OP_NONE;
    /* everything accepted so far or now may reach the far end */
    O.sent = written + n;
    if (vec)
        r = exact ? hev_task_cio_writev_exact (top, v.v.data (), v.v.size (),
                                               NULL, NULL)
                  : hev_task_cio_writev (top, v.v.data (), v.v.size (), NULL,
                                         NULL);
    else
        r = exact ? hev_task_cio_write_exact (top, v.b.data (), n, NULL, NULL)
                  : hev_task_cio_write (top, v.b.data (), n, NULL, NULL);
    op[who] = OP_NONE;
    ops++;
    waits += vos_now () > t;
    vt_log ("  gives %zd", r);
    vt_sig (r);
    VT_CHECK (v.b == keep, "vector: the caller's data was modified");
    VT_CHECK (r <= (ssize_t)n, "result: write returned %zd of %zu", r, n);
    if (n == 0)
        VT_CHECK (vos_now () == t || injected > inj0, "stall: an empty write waited");
    if (r < 0) {
        VT_CHECK (r == -1 && out_err, "result: write failed with %zd without "
                  "a reason", r);
        r = 0;
    } else {
        VT_CHECK (n == 0 || r > 0 || out_err, "result: nothing written");
        if (exact)
            VT_CHECK (r == (ssize_t)n || out_err,
                      "result: exact write returned %zd of %zu", r, n);
    }
    written += r;
    O.sent = written;
    if (kind == T_NULL)
        O.got = written;
    else
        VT_CHECK (O.got + queued (O.rfd) <= written,
                  "invented: more bytes reached the far end than were written");
}

static void
do_flush (int who)
{
    uint64_t t = vos_now ();
    int r;

    vt_log ("flush");
    out_err = false;
    op[who] = OP_WRITE;
    r = hev_task_cio_flush (top, NULL, NULL);
    op[who] = OP_NONE;
    ops++;
    waits += vos_now () > t;
    vt_log ("  gives %d", r);
    vt_sig (r);
    if (r < 0) {
        VT_CHECK (r == -1 && out_err, "result: flush failed without a reason");
        return;
    }
    VT_CHECK (r == 0, "result: flush gave %d", r);
    if (kind != T_NULL)
        VT_CHECK (O.got + queued (O.rfd) == written,
                  "flush: %llu bytes written, %llu reached the transport",
                  (unsigned long long)written,
                  (unsigned long long)(O.got + queued (O.rfd)));
}

static void
do_peek (void)
{
    static unsigned char b[140000];
    size_t n = gen_n (), r2 = 0;
    ssize_t r;
    int inj0 = injected;
    uint64_t t = vos_now (), avail = I.sent - I.got;

    if (n > 4900)
        n = 4900;
    if (vt_bool ()) {
        memset (b, 0x3c, 5000);
        r = hev_task_cio_buffer_peek (top, b, n);
        if (r >= 0)
            for (size_t i = r; i < 5000; i++)
                VT_CHECK (b[i] == 0x3c, "overrun: peek wrote past its result");
    } else {
        struct iovec v[2];
        r = hev_task_cio_buffer_peekv (top, v);
        if (r >= 0) {
            VT_CHECK (r <= 2, "result: peek gave %zd elements", r);
            for (int i = 0; i < r; i++) {
                VT_CHECK (r2 + v[i].iov_len <= sizeof (b),
                          "result: peek exposes %zu bytes", v[i].iov_len);
                memcpy (b + r2, v[i].iov_base, v[i].iov_len);
                r2 += v[i].iov_len;
            }
            r = r2;
            n = sizeof (b);
        }
    }
    vt_log ("peek %zu gives %zd", n, r);
    peeks++;
    VT_CHECK (vos_now () == t, "stall: a peek waited");
    if (!top_rbuf) {
        VT_CHECK (r == -1, "result: peek without a buffer gave %zd", r);
        return;
    }
    if (kind == T_NULL) {
        VT_CHECK (r == 0, "result: peek of the null endpoint gave %zd", r);
        return;
    }
    VT_CHECK (r >= 0 && r <= (ssize_t)n, "result: peek gave %zd of %zu", r, n);
    lk_take (&I, b, n, r, true);
    VT_CHECK (r > 0 || !avail || !n || injected > inj0 || in_err,
              "result: peek gave nothing although %llu bytes are there",
              (unsigned long long)avail);
}

static void
body (int who, int len, bool rd, bool wr)
{
    HevTask *t = hev_task_self ();

    if (kind != T_NULL) {
        if (rd && hev_task_add_fd (t, I.rfd,
                                   POLLIN | (I.rfd == O.wfd ? POLLOUT : 0)) < 0)
            vt_fail ("create: registration failed");
        if (wr && I.rfd != O.wfd && hev_task_add_fd (t, O.wfd, POLLOUT) < 0)
            vt_fail ("create: registration failed");
    }
    for (int i = 0; i < len; i++) {
        switch (vt_weight ({ rd ? 6u : 0u, wr ? 6u : 0u, wr ? 3u : 0u,
                             rd && top_buffer ? 3u : 0u, 1 })) {
        case 0:
            if (rd)
                do_read (who);
            break;
        case 1:
            do_write (who);
            break;
        case 2:
            do_flush (who);
            break;
        case 3:
            do_peek ();
            break;
        case 4:
            if (vt_bool ())
                hev_task_sleep (1);
            else if (kind != T_NULL)
                lk_put (&I, vt_range (1, scale));
            break;
        }
    }
    if (wr) {
        /* a bounded number of errors can be injected */
        for (int i = 0; i < 4; i++) {
            do_flush (who);
            if (!out_err)
                break;
        }
    }
    if (rd && kind != T_NULL) {
        hev_task_del_fd (t, I.rfd);
    }
    if (wr && kind != T_NULL && I.rfd != O.wfd)
        hev_task_del_fd (t, O.wfd);
    live--;
}

static size_t
gen_size (void)
{
    switch (vt_weight ({ 2, 3, 4, 1 })) {
    case 0:
        return 0;
    case 1:
        return vt_range (1, 4);
    case 2:
        return vt_range (1, 64);
    }
    if (vt_chance (1, 60))
        return vt_pick ({ 65536, 131072, 65535, 65537, 100000 });
    return vt_range (64, 3000);
}

void
prop_case (void)
{
    int nl = vt_weight ({ 1, 4, 3, 2, 1 }), fin = 0, plain = 0;
    bool two;

    ts_clock ();
    vos_poll_limit = 100000;
    ts_env_clear ();
    memset (injs, 0, sizeof (injs));
    written = 0;
    in_err = out_err = false;
    op[0] = op[1] = OP_NONE;
    waits = ops = injected = peeks = ticks = 0;
    last_tick = vos_now ();
    tick_limit = vt_range (0, 60);
    I = Link ();
    O = Link ();
    ts_init ();
    vos_fault = fault;
    vos_short = shorten;
    kind = vt_weight ({ 5, 3, 1 });
    switch (kind) {
    case T_FD:
        if (vt_chance (1, 3)) {
            /* one descriptor in both directions, owned twice */
            lk_make (&I, LK_STREAM, 0);
            O.kind = LK_STREAM;
            O.id = 1;
            O.wfd = dup (I.rfd);
            O.rfd = I.wfd;
            int sz = 4096;
            setsockopt (I.rfd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        } else {
            lk_make (&I, vt_bool () ? LK_PIPE : LK_STREAM, 0);
            lk_make (&O, vt_bool () ? LK_PIPE : LK_STREAM, 1);
        }
        top = hev_task_cio_fd_new (I.rfd, O.wfd);
        break;
    case T_SOCK: {
        int sz = 4096;
        lk_make (&I, LK_STREAM, 0);
        O.kind = LK_STREAM;
        O.id = 1;
        O.wfd = I.rfd;
        O.rfd = I.wfd;
        setsockopt (I.rfd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        top = hev_task_cio_socket_new (AF_UNIX, I.rfd);
        break;
    }
    case T_NULL:
        I.rfd = I.wfd = O.rfd = O.wfd = -1;
        I.kind = O.kind = LK_STREAM;
        I.id = 0;
        O.id = 1;
        top = hev_task_cio_null_new ();
        break;
    }
    if (!top)
        vt_fail ("create: endpoint creation failed");
    scale = 16;
    top_buffer = top_rbuf = false;
    layers = 0;
    for (int i = 0; i < nl; i++) {
        if (vt_chance (1, 5)) {
            top = hev_task_cio_push (sh_layer_new (&fin), top);
            top_buffer = top_rbuf = false;
            plain++;
            vt_log ("layer: pass-through");
        } else {
            size_t r = gen_size (), w = gen_size ();
            Cio *b = hev_task_cio_buffer_new (r, w);
            if (!b)
                vt_fail ("create: layer creation failed");
            top = hev_task_cio_push (b, top);
            top_buffer = true;
            top_rbuf = r;
            layers++;
            if (r + w)
                scale = (r + w) / 2 % 3000 + 1;
            vt_log ("layer: buffers of %zu and %zu", r, w);
        }
    }
    if (kind != T_NULL)
        for (int fd : { I.rfd, O.wfd }) {
            Inj *j = &injs[fd];
            j->on = 1;
            j->err = vt_chance (1, 8) ? vt_errno () : 0;
            j->again = vt_chance (1, 4) ? vt_range (1, 3) : 0;
            j->cap = vt_chance (1, 4) ? vt_range (1, 40) : 0;
            j->after = vt_range (0, 8);
        }
    two = kind == T_FD && O.rfd != I.wfd && vt_chance (1, 3);
    live = two ? 2 : 1;
    int n = vt_range (1, 24);
    if (two) {
        ts_go ([=] { body (0, n, true, false); });
        ts_go ([=] { body (1, n, false, true); });
    } else {
        ts_go ([=] { body (0, n, true, true); });
    }
    if (kind != T_NULL)
        ts_at (vos_now () + 1000, tick);
    ts_run ();
    VT_CHECK (!live, "stall: a task did not finish");
    if (kind != T_NULL) {
        while (queued (O.rfd))
            lk_get (&O, 65536);
        VT_CHECK (O.got == written, "lost: %llu bytes written, %llu arrived",
                  (unsigned long long)written, (unsigned long long)O.got);
    }
    sh_unref (top);
    VT_CHECK (fin == plain, "destroyed: %d of %d layers", fin, plain);
    if (kind != T_NULL) {
        if (!I.wclosed)
            close (I.wfd);
        if (O.rfd != I.wfd)
            close (O.rfd);
    }
    ts_fini ();
    if ((layers && I.got && written) || waits)
        vt_nontrivial ();
    vt_label ("calls", ops);
    vt_label ("calls that waited", waits);
    vt_label ("peeks", peeks);
    vt_label ("injected conditions", injected);
    vt_sample ("kind=%d layers=%d+%d ops=%d in=%llu out=%llu", kind, layers,
               plain, ops, (unsigned long long)I.got,
               (unsigned long long)written);
}
