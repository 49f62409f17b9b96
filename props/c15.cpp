// VARIANTS default:875000:2500000 nosplice:210000:600000 heap:105000:300000 asan:28000:80000
#include "cio.hpp"
#include "link.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <functional>
#include <netinet/in.h>

const char *prop_id = "C15";
const char *prop_rule =
    "A case is a series of blocking operations (descriptor, socket, message, "
    "connect, accept, chained and splice calls) with a generated yield function "
    "that returns at once, suspends in various ways, makes the operation ready "
    "or aborts, next to a task that runs whenever it can. Non-trivial: the yield "
    "function was called. Distinct by the executed trace.";

static uint64_t steps; /* turns of the other task */
static uint64_t expect_steps, expect_polls;
static bool armed;     /* inside an operation with a yield function */
static int calls, aborts, ops, injected;
static uint64_t moved; /* bytes moved by system calls */
static uint64_t moved_fd[1024];
static uint64_t last_moved;
static int op_calls, abort_at, abort_val, yields;
static bool aborted, spurious, splicing;
static std::function<void (void)> prepare; /* makes the operation ready */
static std::function<bool (void)> ready;   /* could go on right now */
static bool prepared;
static int cookie, idle_yields;
static bool layered;
static int inj_fd, inj_again;

static int
fault (int call, int fd)
{
    if (((call >= VC_read && call <= VC_sendmsg) || call == VC_splice) &&
        armed)
        VT_CHECK (!aborted, "abort: a system call was made after the abort");
    if (call >= VC_read && call <= VC_sendmsg && fd == inj_fd && inj_again) {
        inj_again--;
        injected++;
        spurious = true;
        vos_rearm (fd);
        return EAGAIN;
    }
    return 0;
}

static void
after (int call, int fd, long ret, int err)
{
    if (ret > 0 &&
        ((call >= VC_read && call <= VC_sendmsg) || call == VC_splice)) {
        moved += ret;
        if (fd >= 0 && fd < 1024)
            moved_fd[fd] += ret;
    }
}

static int
yielder (HevTaskYieldType type, void *data)
{
    calls++;
    op_calls++;
    VT_CHECK (armed && !aborted, "abort: called again after the abort");
    VT_CHECK (data == &cookie, "data: wrong pointer passed to the yield "
                               "function");
    VT_CHECK (steps == expect_steps && vos_polls == expect_polls, "suspended: the task was suspended other "
                                     "than by its yield function");
    VT_CHECK (op_calls < (splicing ? 30000 : 3000), "stall: called %d times", op_calls);
    if (type == HEV_TASK_YIELD) {
        VT_CHECK (splicing, "kind: plain yield while waiting for I/O");
        /* data may move between layers without a system call */
        idle_yields = moved != last_moved ? 0 : idle_yields + 1;
        VT_CHECK (idle_yields <= (layered ? 150 : 0),
                  "kind: plain yield although nothing was moved");
        yields++;
    } else {
        VT_CHECK (type == HEV_TASK_WAITIO, "kind: %d", (int)type);
        if (ready && !spurious)
            VT_CHECK (!ready (), "needless: called although the operation can "
                                 "go on");
    }
    last_moved = moved;
    spurious = false;
    if (abort_at && op_calls >= abort_at) {
        vt_log ("  yield %d: abort with %d", (int)type, abort_val);
        aborted = true;
        aborts++;
        return abort_val;
    }
    int k = op_calls > 40 ? 0 : vt_weight ({ 4, 3, 3, 2, 1 });
    vt_log ("  yield %d: action %d", (int)type, k);
    vt_sig (k + 10 * type);
    switch (k) {
    case 0: /* the operation becomes possible */
        if (prepare && type == HEV_TASK_WAITIO) {
            prepare ();
            prepared = true;
        }
        break;
    case 1:
        break;
    case 2:
        hev_task_yield (HEV_TASK_YIELD);
        break;
    case 3:
        hev_task_sleep (vt_range (1, 3));
        break;
    case 4:
        if (prepare && type == HEV_TASK_WAITIO) {
            ts_at (vos_now () + MS, [] {
                if (prepare && !prepared)
                    prepare ();
                prepared = true;
            });
            hev_task_sleep (vt_range (2, 4));
        } else {
            hev_task_yield (type == HEV_TASK_YIELD ? type : HEV_TASK_YIELD);
        }
        break;
    }
    expect_steps = steps;
    expect_polls = vos_polls;
    return 0;
}

static void
begin (int abort_den)
{
    static const int vals[] = { 1, -1, 2, -2, 1000, INT32_MIN };

    ops++;
    op_calls = yields = idle_yields = 0;
    abort_at = vt_chance (1, abort_den) ? vt_range (1, 4) : 0;
    if (abort_at && vt_chance (1, 10))
        abort_at = vt_range (1, 20);
    abort_val = vals[vt_u (6)];
    aborted = spurious = prepared = false;
    last_moved = moved;
    expect_steps = steps;
    expect_polls = vos_polls;
    armed = true;
    errno = 0;
}

static void
end (void)
{
    armed = false;
    VT_CHECK (steps == expect_steps && vos_polls == expect_polls, "suspended: the task was suspended other "
                                     "than by its yield function");
    prepare = nullptr;
    ready = nullptr;
    inj_again = 0;
    inj_fd = -1;
}

static bool
pollev (int fd, short ev)
{
    struct pollfd p = { fd, ev, 0 };
    return poll (&p, 1, 0) > 0;
}

static size_t
gen_n (void)
{
    return vt_chance (3, 4) ? vt_range (1, 100) : vt_range (1, 6000);
}

static void
inject (int fd)
{
    inj_fd = fd;
    inj_again = vt_chance (1, 8) ? vt_range (1, 3) : 0;
}

/* check an aborted call; true if it was */
static bool
was_aborted (ssize_t r)
{
    if (!aborted) {
        VT_CHECK (r != -2, "abort: dedicated result without an abort");
        return false;
    }
    VT_CHECK (r == -2, "abort: result %zd after the yield function returned %d",
              r, abort_val);
    return true;
}

static void
io_read (Link *l)
{
    size_t n = gen_n ();
    int form = l->kind == LK_PIPE ? vt_u (2) : vt_u (5);
    bool all = form >= 2 && vt_bool ();
    Vec v (n, form == 1 || form == 4 ? 4 : 1);
    int fl = all ? MSG_WAITALL : 0;
    ssize_t r;

    if (vt_chance (1, 3))
        lk_put (l, vt_range (1, 100));
    bool first = lk_readable (l);
    prepare = [l] { lk_put (l, vt_range (1, 200)); };
    ready = [l] { return pollev (l->rfd, POLLIN); };
    inject (l->rfd);
    bool noinj = !inj_again;
    vt_log ("read form %d n %zu all %d have %llu", form, n, all,
            (unsigned long long)(l->sent - l->got));
    uint64_t have = l->sent - l->got, m0 = moved;
    begin (6);
    switch (form) {
    case 0:
        r = hev_task_io_read (l->rfd, v.b.data (), n, yielder, &cookie);
        break;
    case 1:
        r = hev_task_io_readv (l->rfd, v.v.data (), v.v.size (), yielder,
                               &cookie);
        break;
    case 2:
        r = hev_task_io_socket_recv (l->rfd, v.b.data (), n, fl, yielder,
                                     &cookie);
        break;
    case 3:
        r = hev_task_io_socket_recvfrom (l->rfd, v.b.data (), n, fl, NULL, NULL,
                                         yielder, &cookie);
        break;
    default: {
        struct msghdr m;
        memset (&m, 0, sizeof (m));
        m.msg_iov = v.v.data ();
        m.msg_iovlen = v.v.size ();
        r = hev_task_io_socket_recvmsg (l->rfd, &m, fl, yielder, &cookie);
        break;
    }
    }
    end ();
    vt_log ("returns %zd after %d calls", r, op_calls);
    if (was_aborted (r)) {
        l->got += moved - m0; /* a partial transfer is lost with the abort */
        return;
    }
    VT_CHECK (r > 0, "result: %zd errno %d", r, errno);
    VT_CHECK (!all || (size_t)r == n, "result: %zd of %zu with wait-all", r, n);
    if (!all && noinj)
        VT_CHECK (!first || op_calls == 0, "needless: called %d times although "
                  "data was there", op_calls);
    if ((all ? have < n : !first) || !noinj)
        VT_CHECK (op_calls > 0, "suspended: waited without calling the yield "
                                "function");
    lk_take (l, v.b.data (), n, r, false);
}

static void
io_write (Link *l)
{
    size_t n = gen_n ();
    int form = l->kind == LK_PIPE ? vt_u (2) : vt_u (5);
    bool all = form >= 2 && vt_bool ();
    Vec v (n, form == 1 || form == 4 ? 4 : 1);
    int fl = MSG_NOSIGNAL | (all ? MSG_WAITALL : 0);
    ssize_t r;

    lk_fill (l, v.b.data (), n);
    if (vt_bool ()) {
        /* fill it up */
        while (lk_put (l, 1000) > 0)
            ;
        lk_fill (l, v.b.data (), n);
    }
    bool first = lk_writable (l);
    uint64_t base = l->sent, m0 = moved;
    prepare = [l, base, m0] {
        /* what went out so far may be read */
        uint64_t s = l->sent;
        l->sent = base + (moved - m0);
        lk_get (l, vt_range (4000, 8000));
        lk_get (l, 8000);
        l->sent = s;
    };
    ready = [l] { return lk_writable (l); };
    inject (l->wfd);
    bool noinj = !inj_again;
    vt_log ("write form %d n %zu all %d writable %d", form, n, all, first);
    begin (6);
    switch (form) {
    case 0:
        r = hev_task_io_write (l->wfd, v.b.data (), n, yielder, &cookie);
        break;
    case 1:
        r = hev_task_io_writev (l->wfd, v.v.data (), v.v.size (), yielder,
                                &cookie);
        break;
    case 2:
        r = hev_task_io_socket_send (l->wfd, v.b.data (), n, fl, yielder,
                                     &cookie);
        break;
    case 3:
        r = hev_task_io_socket_sendto (l->wfd, v.b.data (), n, fl, NULL, 0,
                                       yielder, &cookie);
        break;
    default: {
        struct msghdr m;
        memset (&m, 0, sizeof (m));
        m.msg_iov = v.v.data ();
        m.msg_iovlen = v.v.size ();
        r = hev_task_io_socket_sendmsg (l->wfd, &m, fl, yielder, &cookie);
        break;
    }
    }
    end ();
    vt_log ("returns %zd after %d calls", r, op_calls);
    l->sent = base + (moved - m0);
    if (was_aborted (r))
        return;
    VT_CHECK (r > 0 && (uint64_t)r == moved - m0, "result: %zd errno %d", r,
              errno);
    VT_CHECK (!all || (size_t)r == n, "result: %zd of %zu with wait-all", r, n);
    if (!all && noinj)
        VT_CHECK (!first || op_calls == 0, "needless: called %d times although "
                  "there was room", op_calls);
    if (!noinj)
        VT_CHECK (op_calls > 0, "suspended: waited without calling the yield "
                                "function");
}

static void
io_case (void)
{
    Link l;
    int n = 0, len = vt_range (1, 8);
    HevTask *t = hev_task_self ();

    lk_make (&l, vt_bool () ? LK_PIPE : LK_STREAM, 0);
    hev_task_add_fd (t, l.rfd, POLLIN);
    hev_task_add_fd (t, l.wfd, POLLOUT);
    while (n++ < len)
        if (vt_bool ())
            io_read (&l);
        else
            io_write (&l);
    hev_task_del_fd (t, l.rfd);
    hev_task_del_fd (t, l.wfd);
    lk_close_r (&l);
    lk_close_w (&l);
}

static void
cio_case (void)
{
    Link in, out;
    HevTask *t = hev_task_self ();
    int n = 0, len = vt_range (1, 8), fin = 0;
    uint64_t pending = 0; /* written to the chain and not yet below */
    bool plain = true;
    Cio *c;

    lk_make (&in, LK_STREAM, 0);
    lk_make (&out, LK_STREAM, 1);
    hev_task_add_fd (t, in.rfd, POLLIN);
    hev_task_add_fd (t, out.wfd, POLLOUT);
    c = hev_task_cio_fd_new (in.rfd, out.wfd);
    for (int i = vt_u (3); i > 0; i--) {
        Cio *b;
        if (vt_chance (1, 3)) {
            b = sh_layer_new (&fin);
        } else {
            size_t r = vt_bool () ? vt_range (1, 100) : 4000;
            size_t w = vt_bool () ? vt_range (1, 100) : 4000;
            if (vt_chance (1, 4))
                r = 0;
            if (vt_chance (1, 4))
                w = 0;
            b = hev_task_cio_buffer_new (r, w);
            if (w)
                plain = false;
        }
        c = hev_task_cio_push (b, c);
    }
    while (n++ < len) {
        size_t k = gen_n ();
        Vec v (k, 3);
        /* empty elements are the business of another property */
        for (auto &e : v.v)
            if (!e.iov_len) {
                v.v.assign (1, { v.b.data (), k });
                break;
            }
        int form = vt_u (9);
        ssize_t r;
        if (form < 4) {
            bool exact = form & 1;
            if (vt_chance (1, 3))
                lk_put (&in, vt_range (1, 100));
            prepare = [&in] { lk_put (&in, vt_range (1, 200)); };
            uint64_t got = in.got;
            ready = [&] {
                /* data held by the layers must be used first */
                return pollev (in.rfd, POLLIN) ||
                       (!exact && moved_fd[in.rfd] > got);
            };
            inject (in.rfd);
            vt_log ("chain read form %d n %zu", form, k);
            begin (8);
            switch (form) {
            case 0:
                r = hev_task_cio_read (c, v.b.data (), k, yielder, &cookie);
                break;
            case 1:
                r = hev_task_cio_read_exact (c, v.b.data (), k, yielder,
                                             &cookie);
                break;
            case 2:
                r = hev_task_cio_readv (c, v.v.data (), v.v.size (), yielder,
                                        &cookie);
                break;
            default:
                r = hev_task_cio_readv_exact (c, v.v.data (), v.v.size (),
                                              yielder, &cookie);
                break;
            }
            end ();
            vt_log ("returns %zd after %d calls", r, op_calls);
            if (was_aborted (r))
                break;
            VT_CHECK (r > 0 && (!exact || (size_t)r == k), "result: %zd of %zu",
                      r, k);
            lk_take (&in, v.b.data (), k, r, false);
        } else {
            bool exact = form & 1;
            lk_fill (&out, v.b.data (), k);
            uint64_t base = out.sent;
            out.sent = base + k;
            prepare = [&] {
                unsigned char b[9000];
                for (int i = 0; i < 2; i++) {
                    ssize_t x = read (out.rfd, b, sizeof (b));
                    if (x > 0)
                        lk_take (&out, b, sizeof (b), x, false);
                }
            };
            ready = [&] { return lk_writable (&out); };
            inject (out.wfd);
            vt_log ("chain write form %d n %zu", form, k);
            begin (8);
            switch (form) {
            case 4:
                r = hev_task_cio_write (c, v.b.data (), k, yielder, &cookie);
                break;
            case 5:
                r = hev_task_cio_write_exact (c, v.b.data (), k, yielder,
                                              &cookie);
                break;
            case 6:
                r = hev_task_cio_writev (c, v.v.data (), v.v.size (), yielder,
                                         &cookie);
                break;
            case 7:
                r = hev_task_cio_writev_exact (c, v.v.data (), v.v.size (),
                                               yielder, &cookie);
                break;
            default:
                out.sent = base;
                r = hev_task_cio_flush (c, yielder, &cookie);
                break;
            }
            end ();
            vt_log ("returns %zd after %d calls", r, op_calls);
            if (was_aborted (r))
                break;
            if (form == 8) {
                VT_CHECK (r == 0, "result: flush gives %zd", r);
                VT_CHECK (moved_fd[out.wfd] == out.sent,
                          "result: flush left %llu bytes behind",
                          (unsigned long long)(out.sent - moved_fd[out.wfd]));
            } else {
                VT_CHECK (r > 0 && (!exact || (size_t)r == k),
                          "result: %zd of %zu", r, k);
                out.sent = base + r;
            }
        }
    }
    (void)pending;
    (void)plain;
    hev_task_del_fd (t, in.rfd);
    hev_task_del_fd (t, out.wfd);
    sh_unref (c);
    close (in.wfd);
    close (out.rfd);
}

static void
dgram_case (void)
{
    Link l;
    HevTask *t = hev_task_self ();
    int n = 0, len = vt_range (1, 6);
    Cio *r, *w;

    lk_make (&l, LK_DGRAM, 0);
    hev_task_add_fd (t, l.rfd, POLLIN);
    hev_task_add_fd (t, l.wfd, POLLOUT);
    r = hev_task_cio_socket_new (AF_UNIX, l.rfd);
    w = hev_task_cio_socket_new (AF_UNIX, l.wfd);
    if (vt_bool ()) {
        r = hev_task_cio_push (hev_task_cio_buffer_new (100, 100), r);
        w = hev_task_cio_push (hev_task_cio_buffer_new (100, 100), w);
    }
    while (n++ < len) {
        size_t k = vt_range (1, 1500);
        Vec v (k, 3);
        bool vec = vt_bool ();
        ssize_t x;
        if (vt_bool ()) {
            if (vt_chance (1, 3))
                lk_put (&l, vt_range (1, 100));
            bool first = lk_readable (&l);
            prepare = [&l] { lk_put (&l, vt_range (1, 1500)); };
            ready = [&l] { return pollev (l.rfd, POLLIN); };
            inject (l.rfd);
            vt_log ("datagram read n %zu ready %d", k, first);
            begin (6);
            x = vec ? hev_task_cio_readv_dgram (r, v.v.data (), v.v.size (),
                                                NULL, yielder, &cookie)
                    : hev_task_cio_read_dgram (r, v.b.data (), k, NULL,
                                               yielder, &cookie);
            end ();
            if (was_aborted (x))
                continue;
            VT_CHECK (x > 0, "result: %zd errno %d", x, errno);
            VT_CHECK (first || op_calls, "suspended: waited without calling "
                                         "the yield function");
            lk_take (&l, v.b.data (), k, x, false);
        } else {
            if (vt_bool ())
                while (lk_put (&l, 500) > 0)
                    ;
            lk_fill (&l, v.b.data (), k);
            bool first = lk_writable (&l);
            prepare = [&l] {
                lk_get (&l, 8000);
                lk_get (&l, 8000);
                lk_get (&l, 8000);
                lk_get (&l, 8000);
            };
            ready = [&l] { return lk_writable (&l); };
            inject (l.wfd);
            vt_log ("datagram write n %zu ready %d", k, first);
            begin (6);
            x = vec ? hev_task_cio_writev_dgram (w, v.v.data (), v.v.size (),
                                                 NULL, yielder, &cookie)
                    : hev_task_cio_write_dgram (w, v.b.data (), k, NULL,
                                                yielder, &cookie);
            end ();
            if (was_aborted (x))
                continue;
            VT_CHECK (x == (ssize_t)k, "result: %zd errno %d", x, errno);
            lk_sent (&l, k);
        }
    }
    hev_task_del_fd (t, l.rfd);
    hev_task_del_fd (t, l.wfd);
    sh_unref (r);
    sh_unref (w);
}

static void
conn_case (void)
{
    HevTask *t = hev_task_self ();
    bool inet = vt_chance (1, 4);
    int ls, n = 0, len = vt_range (1, 4);
    struct sockaddr_storage ss;
    socklen_t sl;

    memset (&ss, 0, sizeof (ss));
    if (inet) {
        struct sockaddr_in *a = (struct sockaddr_in *)&ss;
        a->sin_family = AF_INET;
        a->sin_addr.s_addr = htonl (INADDR_LOOPBACK);
        sl = sizeof (*a);
    } else {
        ss.ss_family = AF_UNIX;
        sl = sizeof (sa_family_t); /* a name is chosen by the kernel */
    }
    ls = socket (inet ? AF_INET : AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
    if (ls < 0 || bind (ls, (struct sockaddr *)&ss, sl) || listen (ls, 16))
        vt_fail ("harness: listen %d", errno);
    sl = sizeof (ss);
    getsockname (ls, (struct sockaddr *)&ss, &sl);
    hev_task_add_fd (t, ls, POLLIN);
    std::vector<int> open;
    int waiting = 0;
    auto dial = [&] {
        int fd = socket (inet ? AF_INET : AF_UNIX, SOCK_STREAM, 0);
        if (fd < 0 || connect (fd, (struct sockaddr *)&ss, sl))
            vt_fail ("harness: connect %d", errno);
        open.push_back (fd);
        waiting++;
    };
    while (n++ < len) {
        if (vt_bool ()) {
            if (vt_chance (1, 3))
                dial ();
            bool first = waiting > 0;
            prepare = dial;
            ready = [ls] { return pollev (ls, POLLIN); };
            vt_log ("accept, %d waiting", waiting);
            begin (5);
            int fd = hev_task_io_socket_accept (ls, NULL, NULL, yielder,
                                                &cookie);
            end ();
            vt_log ("returns %d after %d calls", fd, op_calls);
            if (was_aborted (fd))
                continue;
            VT_CHECK (fd >= 0, "result: %d", fd);
            VT_CHECK (first ? !op_calls : op_calls > 0,
                      "suspended: %d calls with %d connections waiting",
                      op_calls, (int)first);
            waiting--;
            open.push_back (fd);
        } else {
            int fd = hev_task_io_socket_socket (inet ? AF_INET : AF_UNIX,
                                                SOCK_STREAM, 0);
            hev_task_add_fd (t, fd, POLLIN | POLLOUT);
            vt_log ("connect");
            begin (5);
            int r = hev_task_io_socket_connect (fd, (struct sockaddr *)&ss, sl,
                                                yielder, &cookie);
            end ();
            vt_log ("returns %d after %d calls", r, op_calls);
            open.push_back (fd);
            waiting++;
            if (was_aborted (r))
                continue;
            VT_CHECK (r == 0, "result: %d errno %d", r, errno);
        }
    }
    /* leave no connection behind in the kernel */
    struct linger lg = { 1, 0 };
    for (int fd : open)
        setsockopt (fd, SOL_SOCKET, SO_LINGER, &lg, sizeof (lg));
    for (int fd : open)
        close (fd);
    hev_task_del_fd (t, ls);
    close (ls);
}

static void
splice_case (void)
{
    /* a and b endpoints, with both ends of the outside world */
    Link ai, ao, bi, bo;
    HevTask *t = hev_task_self ();
    bool chained = vt_bool ();
    size_t bs = vt_pick ({ 1, 10, 100, 4096, 8192 });
    int most = bs < 100 ? 300 : 3000;
    uint64_t rem[2] = { (uint64_t)vt_range (0, most),
                        (uint64_t)vt_range (0, most) };

    lk_make (&ai, LK_STREAM, 0);
    lk_make (&ao, LK_STREAM, 1);
    lk_make (&bi, LK_STREAM, 2);
    lk_make (&bo, LK_STREAM, 3);
    for (Link *l : { &ai, &bi })
        hev_task_add_fd (t, l->rfd, POLLIN);
    for (Link *l : { &ao, &bo })
        hev_task_add_fd (t, l->wfd, POLLOUT);
    bool buffered = chained && vt_bool ();
    uint64_t got[2] = { 0, 0 };
    auto feed = [&] {
        for (int i = 0; i < 2; i++) {
            Link *s = i ? &bi : &ai, *d = i ? &ao : &bo;
            unsigned char b[9000];
            ssize_t x = read (d->rfd, b, sizeof (b));
            for (ssize_t j = 0; j < x; j++)
                VT_CHECK (b[j] == lk_byte (s, got[i] + j), "data: wrong byte");
            if (x > 0)
                got[i] += x;
            if (rem[i]) {
                ssize_t y =
                    lk_put (s, std::min<uint64_t> (rem[i], vt_range (1, 900)));
                if (y > 0)
                    rem[i] -= y;
            } else if (!s->wclosed && !vt_chance (1, 3)) {
                lk_close_w (s);
            }
        }
    };
    prepare = feed;
    /* with buffering layers the next step is not visible from outside */
    ready = [&] {
        if (buffered)
            return false;
        return (!ai.weof && pollev (ai.rfd, POLLIN) && lk_writable (&bo)) ||
               (!bi.weof && pollev (bi.rfd, POLLIN) && lk_writable (&ao));
    };
    splicing = true;
    layered = buffered;
    vt_log ("splice chained %d buffered %d size %zu", chained, buffered, bs);
    begin (3);
    if (!abort_at && vt_bool ())
        feed ();
    if (!chained) {
        hev_task_io_splice (ai.rfd, ao.wfd, bi.rfd, bo.wfd, bs, yielder,
                            &cookie);
        end ();
        close (ai.rfd);
        close (ao.wfd);
        close (bi.rfd);
        close (bo.wfd);
    } else {
        int fin = 0;
        Cio *a = hev_task_cio_fd_new (ai.rfd, ao.wfd);
        Cio *b = hev_task_cio_fd_new (bi.rfd, bo.wfd);
        a = hev_task_cio_push (buffered ? hev_task_cio_buffer_new (50, 50)
                                        : sh_layer_new (&fin),
                               a);
        if (vt_bool ())
            b = hev_task_cio_push (sh_layer_new (&fin), b);
        hev_task_cio_splice (a, b, bs, yielder, &cookie);
        end ();
        sh_unref (a);
        sh_unref (b);
    }
    splicing = false;
    vt_log ("returns after %d calls, %d plain", op_calls, yields);
    if (!aborted)
        VT_CHECK (chained ? ai.weof || bi.weof : ai.weof && bi.weof,
                  "result: the splice ended although the streams have not");
    close (ao.rfd);
    close (bo.rfd);
    lk_close_w (&ai);
    lk_close_w (&bi);
}

void
prop_case (void)
{
    int kind = vt_weight ({ 5, 5, 2, 1, 3 });
    bool done = false;

    ts_clock ();
    vos_poll_limit = 60000;
    ts_env_clear ();
    steps = 0;
    calls = aborts = ops = injected = 0;
    armed = splicing = false;
    moved = 0;
    memset (moved_fd, 0, sizeof (moved_fd));
    prepare = nullptr;
    ready = nullptr;
    inj_fd = -1;
    inj_again = 0;
    ts_init ();
    vos_fault = fault;
    vos_after = after;
    ts_go ([&] {
        switch (kind) {
        case 0:
            io_case ();
            break;
        case 1:
            cio_case ();
            break;
        case 2:
            dgram_case ();
            break;
        case 3:
            conn_case ();
            break;
        case 4:
            splice_case ();
            break;
        }
        done = true;
    });
    ts_go ([&] {
        while (!done) {
            steps++;
            /* runs whenever the other one lets it, without keeping the loop
             * from going idle */
            hev_task_sleep (1);
            steps++;
            hev_task_yield (HEV_TASK_YIELD);
        }
    });
    ts_run ();
    VT_CHECK (done, "lost: the task did not finish");
    vos_fault = NULL;
    vos_after = NULL;
    ts_fini ();
    if (calls)
        vt_nontrivial ();
    vt_sig (kind);
    vt_label ("operations", ops);
    vt_label ("yield function calls", calls);
    vt_label ("aborts", aborts);
    vt_label ("injected would-blocks", injected);
    vt_sample ("kind=%d operations=%d calls=%d aborts=%d", kind, ops, calls,
               aborts);
}
