// VARIANTS default:875000:2500000 heap:210000:600000 asan:35000:100000
#include "link.hpp"
#include <algorithm>

const char *prop_id = "C13";
const char *prop_rule =
    "A case is 1-3 links (pipe, stream, sequenced-packet or datagram sockets) or "
    "files, with tasks reading and writing through every transfer call in plain, "
    "vectored and message form, against other tasks or an outside peer acting at "
    "generated times, with injected short transfers, would-blocks and errors. "
    "Non-trivial: at least three transfers and one suspension. Distinct by the "
    "executed trace.";

struct Op {
    int st = 0; /* 0 outside, 1 in a call that may wait */
    bool done = true;
    int len;
    size_t n = 0;
};
struct L : Link {
    Op r, w;
    int rt, wt; /* end used by a task */
};
static std::vector<L *> ls;
static uint64_t steps;
static int transfers, suspends, errors, injected;
/* what to inject into the calls on one descriptor */
struct Inj {
    int err;   /* error */
    int again; /* would-blocks before that */
    size_t cap;
};
static Inj injs[1024];
#define inj injs[fd]

static bool
mine (int call, int fd)
{
    return call >= VC_read && call <= VC_sendmsg && fd >= 0 && fd < 1024;
}

static int
fault (int call, int fd)
{
    if (!mine (call, fd))
        return 0;
    if (inj.again) {
        inj.again--;
        injected++;
        vos_rearm (fd);
        return EAGAIN;
    }
    if (inj.err)
        errors++;
    return inj.err;
}

static size_t
shorten (int call, int fd, size_t want)
{
    return mine (call, fd) && inj.cap && inj.cap < want ? inj.cap : want;
}

static void
arm (L *l, int fd)
{
    inj.err = vt_chance (1, 30) ? vt_errno () : 0;
    inj.again = vt_chance (1, 12) ? vt_range (1, 3) : 0;
    inj.cap = !l->msg () && vt_chance (1, 8) ? vt_range (1, 20) : 0;
}

static size_t
gen_n (void)
{
    switch (vt_weight ({ 4, 2, 1, 1 })) {
    case 0:
        return vt_range (1, 64);
    case 1:
        return vt_range (1, 5000);
    case 2:
        return 0;
    }
    if (vt_chance (1, 20))
        return vt_pick ({ 65535, 65536, 65537, 131072 });
    return vt_pick ({ 4096, 4095, 4097, 1, 8192 });
}

static void
do_read (L *l)
{
    size_t n = gen_n ();
    int form = l->kind == LK_PIPE ? vt_weight ({ 2, 1 })
                                  : vt_weight ({ 2, 2, 2, 2, 2 });
    bool peek = l->kind != LK_PIPE && form >= 2 && vt_chance (1, 6);
    int fl = peek ? MSG_PEEK : 0;
    bool ready, noinj;
    ssize_t r;
    uint64_t st;
    int e;

    if (l->msg () && n == 0)
        n = 1;
    Vec v (n, form == 1 || form == 4 ? 6 : 1);
    int fd = l->rfd;
    arm (l, fd);
    noinj = !inj.again;
    ready = lk_readable (l) && n;
    if (inj.err && !ready)
        inj.err = 0;
    bool willerr = inj.err != 0;
    size_t cap = inj.cap;
    int werr = inj.err;
    vt_log ("link %d (%s) read form %d n %zu ready %d err %d again %d cap %zu",
            l->id, lk_name[l->kind], form, n, ready, inj.err, inj.again,
            inj.cap);
    l->r.st = 1;
    l->r.n = n;
    st = ++steps;
    errno = 0;
    switch (form) {
    case 0:
        r = hev_task_io_read (l->rfd, v.b.data (), n, NULL, NULL);
        break;
    case 1:
        r = hev_task_io_readv (l->rfd, v.v.data (), v.v.size (), NULL, NULL);
        break;
    case 2:
        r = hev_task_io_socket_recv (l->rfd, v.b.data (), n, fl, NULL, NULL);
        break;
    case 3: {
        struct sockaddr_un a;
        socklen_t al = sizeof (a);
        r = hev_task_io_socket_recvfrom (l->rfd, v.b.data (), n, fl,
                                         vt_bool () ? (struct sockaddr *)&a
                                                    : NULL,
                                         &al, NULL, NULL);
        break;
    }
    default: {
        struct msghdr m;
        memset (&m, 0, sizeof (m));
        m.msg_iov = v.v.data ();
        m.msg_iovlen = v.v.size ();
        r = hev_task_io_socket_recvmsg (l->rfd, &m, fl, NULL, NULL);
        VT_CHECK (m.msg_iov == v.v.data () && m.msg_iovlen == v.v.size (),
                  "vector: the caller's header was modified");
        break;
    }
    }
    e = errno;
    l->r.st = 0;
    inj = {};
    bool susp = st != steps;
    steps++;
    suspends += susp;
    if (ready && noinj)
        VT_CHECK (!susp, "blocked: read suspended although data was there");
    vt_log ("link %d read returns %zd errno %d", l->id, r, e);
    if (willerr) {
        VT_CHECK (r == -1 && e == werr,
                  "result: the system call failed with %d, read returned %zd "
                  "errno %d", werr, r, e);
        v.intact (0);
        return;
    }
    if (r < 0) {
        VT_CHECK (e != EAGAIN, "result: read reported would-block");
        VT_CHECK (r == -1, "result: read returned %zd", r);
        /* only what the kernel itself reported */
        VT_CHECK (l->wclosed && l->kind != LK_PIPE,
                  "result: read failed with %d", e);
        return;
    }
    if (r == 0 && n && !(l->msg () && !l->msgs.empty ())) {
        VT_CHECK (l->weof, "eof: read returned 0 while the writer is there");
        VT_CHECK (l->sent == l->got || l->msg (), "eof: %llu bytes unread",
                  (unsigned long long)(l->sent - l->got));
        v.intact (0);
        return;
    }
    VT_CHECK ((size_t)r <= n, "result: read %zd of %zu", r, n);
    if (!l->msg () && !cap)
        VT_CHECK ((uint64_t)r == std::min<uint64_t> (n, l->sent - l->got),
                  "short: read %zd of %zu with %llu there", r, n,
                  (unsigned long long)(l->sent - l->got));
    lk_take (l, v.b.data (), n, r, peek);
    v.intact (r);
    transfers++;
}

static void
do_write (L *l)
{
    size_t n = gen_n ();
    int form = l->kind == LK_PIPE ? vt_weight ({ 2, 1 })
                                  : vt_weight ({ 2, 2, 2, 2, 2 });
    bool ready, noinj;
    ssize_t r;
    uint64_t st;
    int e;

    if (l->msg ()) {
        if (n == 0)
            n = 1;
        if (n > 2000)
            n = 2000;
    }
    Vec v (n, form == 1 || form == 4 ? 6 : 1);
    lk_fill (l, v.b.data (), n);
    int fd = l->wfd;
    arm (l, fd);
    noinj = !inj.again;
    ready = lk_writable (l) || !n;
    bool empty = l->sent == l->got;
    if (inj.err && !ready)
        inj.err = 0;
    bool willerr = inj.err != 0;
    size_t cap = inj.cap;
    int werr = inj.err;
    vt_log ("link %d (%s) write form %d n %zu ready %d err %d again %d cap %zu",
            l->id, lk_name[l->kind], form, n, ready, inj.err, inj.again,
            inj.cap);
    l->w.st = 1;
    l->w.n = n;
    st = ++steps;
    errno = 0;
    switch (form) {
    case 0:
        r = hev_task_io_write (l->wfd, v.b.data (), n, NULL, NULL);
        break;
    case 1:
        r = hev_task_io_writev (l->wfd, v.v.data (), v.v.size (), NULL, NULL);
        break;
    case 2:
        r = hev_task_io_socket_send (l->wfd, v.b.data (), n, MSG_NOSIGNAL,
                                     NULL, NULL);
        break;
    case 3:
        r = hev_task_io_socket_sendto (l->wfd, v.b.data (), n, MSG_NOSIGNAL,
                                       NULL, 0, NULL, NULL);
        break;
    default: {
        struct msghdr m;
        memset (&m, 0, sizeof (m));
        m.msg_iov = v.v.data ();
        m.msg_iovlen = v.v.size ();
        r = hev_task_io_socket_sendmsg (l->wfd, &m, MSG_NOSIGNAL, NULL, NULL);
        break;
    }
    }
    e = errno;
    l->w.st = 0;
    inj = {};
    bool susp = st != steps;
    steps++;
    suspends += susp;
    if (ready && noinj)
        VT_CHECK (!susp, "blocked: write suspended although there was room");
    vt_log ("link %d write returns %zd errno %d", l->id, r, e);
    VT_CHECK (!memcmp (v.v.data (), v.copy.data (),
                       v.v.size () * sizeof (struct iovec)),
              "vector: the caller's vector was modified");
    if (willerr) {
        VT_CHECK (r == -1 && e == werr,
                  "result: the system call failed with %d, write returned %zd "
                  "errno %d", werr, r, e);
        return;
    }
    if (r < 0) {
        VT_CHECK (e != EAGAIN, "result: write reported would-block");
        VT_CHECK (r == -1, "result: write returned %zd", r);
        VT_CHECK (l->rclosed && (e == EPIPE || e == ECONNRESET ||
                                 e == ENOTCONN || e == ECONNREFUSED),
                  "result: write failed with %d", e);
        return;
    }
    VT_CHECK ((size_t)r <= n && (r > 0 || n == 0), "result: wrote %zd of %zu",
              r, n);
    if (l->msg ())
        VT_CHECK ((size_t)r == n, "boundary: message of %zu cut to %zd", n, r);
    if (!cap && (l->kind == LK_PIPE ? n <= 4096 : empty && n <= 1000))
        VT_CHECK ((size_t)r == n, "short: wrote %zd of %zu with room", r, n);
    if (n || l->msg ())
        lk_sent (l, r);
    transfers++;
}

static void
end_task (L *l, bool rd, HevTask *t)
{
    if (rd) {
        hev_task_del_fd (t, l->rfd);
        if (l->kind != LK_DGRAM && vt_bool ())
            lk_close_r (l);
        l->r.done = true;
    } else {
        hev_task_del_fd (t, l->wfd);
        if (l->kind != LK_DGRAM && vt_chance (3, 4))
            lk_close_w (l);
        l->w.done = true;
    }
}

static void
body (L *l, bool rd)
{
    Op *o = rd ? &l->r : &l->w;
    HevTask *t = hev_task_self ();
    int n = 0;

    steps++;
    VT_CHECK (hev_task_add_fd (t, rd ? l->rfd : l->wfd, rd ? POLLIN : POLLOUT) ==
                  0,
              "result: registration failed");
    while (vt_more (n, o->len, 12)) {
        n++;
        switch (vt_weight ({ 10, 2, 1 })) {
        case 0:
            if (rd)
                do_read (l);
            else
                do_write (l);
            break;
        case 1:
            hev_task_sleep (vt_range (1, 4));
            break;
        case 2:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        }
        steps++;
        vt_sig (l->id * 2 + rd);
    }
    end_task (l, rd, t);
    steps++;
}

static bool
all_done (void)
{
    for (L *l : ls)
        if (!l->r.done || !l->w.done)
            return false;
    return true;
}

static uint64_t last_tick;
static int ticks;

static void
tick (void)
{
    if (all_done ())
        return;
    if (vos_now () > last_tick)
        for (L *l : ls) {
            /* the loop was idle before this moment */
            VT_CHECK (!(l->r.st && lk_readable (l) && l->r.n),
                      "lost: link %d can be read but its reader sleeps", l->id);
            VT_CHECK (!(l->w.st && lk_writable (l)),
                      "lost: link %d can be written but its writer sleeps",
                      l->id);
        }
    last_tick = vos_now ();
    ticks++;
    for (L *l : ls) {
        bool late = ticks > 40;
        if ((!l->wt || l->w.done) && !l->weof) {
            if (l->r.st && (late || vt_chance (1, 2))) {
                if (!l->msg () && vt_chance (1, 8))
                    lk_close_w (l);
                else
                    lk_put (l, vt_range (1, vt_bool () ? 40 : 1500));
            }
        }
        if ((!l->rt || l->r.done) && !l->rclosed && !l->w.done) {
            if (late || vt_chance (1, 2)) {
                if (l->kind != LK_DGRAM && vt_chance (1, 10))
                    lk_close_r (l);
                else
                    lk_get (l, late ? 65536 : vt_pick ({ 65536, 4096, 10 }));
            }
        }
    }
    ts_at (vos_now () + MS * vt_range (1, 3), tick);
}

/* files never make a task wait */
static void
file_case (void)
{
    char name[64];
    static unsigned char b[150000];
    unsigned char c[8];
    int fd;

    snprintf (name, sizeof (name), "/tmp/vtc13.%d", getpid ());
    fd = open (name, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0)
        vt_fail ("harness: file");
    unlink (name);
    ts_go ([&] {
        size_t n = vt_u (vt_bool () ? 300 : vt_bool () ? 70000 : 140000);
        size_t m = vt_u (vt_bool () ? 300 : vt_bool () ? 70000 : 140000);
        for (size_t i = 0; i < n; i++)
            b[i] = (unsigned char)vt_hash (7, i);
        Vec w (n, 5), r (m, 5);
        memcpy (w.b.data (), b, n);
        uint64_t st = steps;
        ssize_t x = vt_bool ()
                        ? hev_task_io_write (fd, b, n, NULL, NULL)
                        : hev_task_io_writev (fd, w.v.data (), w.v.size (),
                                              NULL, NULL);
        VT_CHECK (x == (ssize_t)n, "result: wrote %zd of %zu to a file", x, n);
        off_t off = vt_u (n + 20);
        lseek (fd, off, SEEK_SET);
        x = vt_bool () ? hev_task_io_read (fd, r.b.data (), m, NULL, NULL)
                       : hev_task_io_readv (fd, r.v.data (), r.v.size (), NULL,
                                            NULL);
        ssize_t want = (size_t)off >= n ? 0 : n - off < m ? n - off : m;
        VT_CHECK (x == want, "result: read %zd of a file, expected %zd", x,
                  want);
        VT_CHECK (!memcmp (r.b.data (), b + off, want), "data: file contents");
        VT_CHECK (st == steps, "blocked: file access suspended");
        errno = 0;
        int bad = vt_pick ({ -1, 3999 });
        x = vt_bool () ? hev_task_io_read (bad, c, 1, NULL, NULL)
                       : hev_task_io_socket_send (bad, c, 1, 0, NULL, NULL);
        VT_CHECK (x == -1 && errno == EBADF, "result: bad descriptor gave %zd "
                  "errno %d", x, errno);
        errno = 0;
        x = hev_task_io_socket_recv (fd, c, 1, 0, NULL, NULL);
        VT_CHECK (x == -1 && errno == ENOTSOCK, "result: file as socket gave "
                  "%zd errno %d", x, errno);
    });
    ts_run ();
    close (fd);
    transfers += 2;
}

void
prop_case (void)
{
    int nl = vt_weight ({ 4, 2, 1 }) + 1;

    ts_clock ();
    vos_poll_limit = 30000;
    ts_env_clear ();
    ls.clear ();
    steps = 0;
    transfers = suspends = errors = injected = ticks = 0;
    last_tick = vos_now ();
    memset (injs, 0, sizeof (injs));
    ts_init ();
    if (vt_chance (1, 40))
        file_case ();
    vos_fault = fault;
    vos_short = shorten;
    for (int i = 0; i < nl; i++) {
        L *l = new L;
        lk_make (l, vt_weight ({ 3, 4, 1, 2 }), i);
        int who = vt_weight ({ 3, 2, 2 });
        l->rt = who != 1;
        l->wt = who != 0;
        l->r.len = vt_range (1, 14);
        l->w.len = vt_range (1, 14);
        l->r.done = !l->rt;
        l->w.done = !l->wt;
        ls.push_back (l);
        vt_sig (l->kind * 4 + who);
    }
    for (L *l : ls) {
        if (l->rt)
            ts_go ([l] { body (l, true); }, vt_bool () ? 8 : vt_range (0, 15));
        if (l->wt)
            ts_go ([l] { body (l, false); }, vt_bool () ? 8 : vt_range (0, 15));
    }
    ts_at (vos_now () + MS, tick);
    ts_run ();
    VT_CHECK (all_done (), "lost: a task did not finish");
    ts_fini ();
    vos_fault = NULL;
    vos_short = NULL;
    if (transfers >= 3 && suspends)
        vt_nontrivial ();
    vt_label ("transfers", transfers);
    vt_label ("suspensions", suspends);
    vt_label ("injected errors", errors);
    vt_label ("injected would-blocks", injected);
    vt_sample ("links=%d first=%s transfers=%d suspensions=%d errors=%d", nl,
               lk_name[ls[0]->kind], transfers, suspends, errors);
    for (L *l : ls) {
        lk_close_r (l);
        lk_close_w (l);
        delete l;
    }
}
