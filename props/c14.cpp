// VARIANTS default:1000000:2500000 heap:240000:600000 asan:40000:100000
#include <deque>
#include "link.hpp"
#include <sys/stat.h>

const char *prop_id = "C14";
const char *prop_rule =
    "A case is either a stream over which tasks transfer with wait-all in all "
    "plain, addressed and message forms, with short transfers, would-blocks and "
    "errors injected and an outside peer pacing the stream, or a series of "
    "single messages received or sent twice, once through the library and once "
    "by the system call on an identical socket. Non-trivial: a transfer that "
    "needed several parts, or a message with address or ancillary data. "
    "Distinct by the executed trace.";

static int multi, meta, errors, injected, transfers, serial;

struct Inj {
    int after; /* error once so many bytes went through, -1 never */
    int err, again, rate;
    size_t cap, moved;
    int parts;
    bool rigged;
    uint64_t h;
};
static Inj injs[1024];
#define inj injs[fd]

static bool
mine (int call, int fd)
{
    return call >= VC_read && call <= VC_sendmsg && fd >= 0 && fd < 1024;
}

static int
fault (int call, int fd)
{
    if (!mine (call, fd) || !inj.rigged)
        return 0;
    if (inj.err && (int)inj.moved >= inj.after) {
        errors++;
        return inj.err;
    }
    if (inj.again && inj.rate && ++inj.h % inj.rate == 0) {
        inj.again--;
        injected++;
        vos_rearm (fd);
        return EAGAIN;
    }
    return 0;
}

static size_t
shorten (int call, int fd, size_t want)
{
    if (!mine (call, fd) || !inj.rigged)
        return want;
    if (inj.err && inj.after - inj.moved < want)
        want = inj.after - inj.moved;
    return inj.cap && inj.cap < want ? inj.cap : want;
}

static void
after (int call, int fd, long ret, int err)
{
    if (mine (call, fd) && ret > 0) {
        inj.moved += ret;
        inj.parts++;
    }
}

static void
arm (int fd, size_t n, bool mayfail)
{
    memset (&inj, 0, sizeof (inj));
    if (vt_chance (1, 8) && mayfail) {
        inj.err = vt_errno ();
        inj.after = vt_bool () ? vt_u (n + 1) : 0;
    }
    if (vt_chance (1, 4)) {
        inj.again = vt_range (1, 4);
        inj.rate = vt_range (1, 4);
    }
    if (vt_bool ())
        inj.cap = vt_range (1, 200) * (n > 20000 ? 200 : 1);
    inj.rigged = true;
}

static Link *lk;
static bool rdone, wdone, rtask, wtask, named;
static int rst, wst, ticks;
static char wname[32];
static socklen_t wnamelen;
static uint64_t last_tick;
/* descriptors that come with the byte at this place of the stream */
struct Rights {
    uint64_t at;
    int nf;
};
static std::deque<Rights> rights_pending;
static int got_fds;

static int
count_fds (struct msghdr *m)
{
    int n = 0;
    for (struct cmsghdr *c = CMSG_FIRSTHDR (m); c; c = CMSG_NXTHDR (m, c))
        if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) {
            int k = (c->cmsg_len - CMSG_LEN (0)) / sizeof (int);
            int *f = (int *)CMSG_DATA (c);
            for (int i = 0; i < k; i++)
                close (f[i]);
            n += k;
        }
    return n;
}

static size_t
gen_n (void)
{
    switch (vt_weight ({ 4, 3, 1 })) {
    case 0:
        return vt_range (1, 100);
    case 1:
        return vt_range (1, 9000);
    }
    if (vt_chance (1, 40))
        return vt_pick ({ 65536, 131072, 65537, 70000, 196608 });
    return vt_pick ({ 4096, 16384, 1, 8191 });
}

struct Addr {
    unsigned char b[160];
    socklen_t size, len;
    void set (void)
    {
        memset (b, 0x3c, sizeof (b));
        size = vt_weight ({ 1, 1, 2 }) == 0 ? 0
               : vt_bool ()                 ? (socklen_t)vt_range (1, 20)
                                            : 110;
        len = size;
    }
    void check (socklen_t got) const
    {
        if (got) {
            VT_CHECK (len == got, "address: length %u, expected %u", len, got);
            VT_CHECK (!memcmp (b, wname, got < size ? got : size),
                      "address: wrong source address");
        }
        for (unsigned i = size; i < sizeof (b); i++)
            VT_CHECK (b[i] == 0x3c, "address: written past the given size");
    }
};

static void
do_recv (void)
{
    Link *l = lk;
    int fd = l->rfd, form = vt_u (3), e;
    size_t n = gen_n ();
    Vec v (n, form == 2 ? 7 : 1);
    union {
        struct cmsghdr h;
        char c[256];
    } ctl;
    Addr a;
    bool ctlon = form == 2 && vt_bool ();
    ssize_t r;
    size_t cs = 0;
    uint64_t from = l->got;

    arm (fd, n, rights_pending.empty ());
    a.set ();
    if (!rights_pending.empty () && !ctlon)
        form = 2, ctlon = true;
    memset (ctl.c, 0x3c, sizeof (ctl.c));
    if (ctlon)
        cs = vt_chance (1, 3) ? vt_u (73) : 200;
    if (form != 2 && v.v.size () > 1)
        vt_fail ("harness: shape");
    vt_log ("recv form %d n %zu elements %zu have %llu err %d after %d cap %zu",
            form, n, v.v.size (), (unsigned long long)(l->sent - l->got),
            inj.err, inj.after, inj.cap);
    rst = 1;
    errno = 0;
    switch (form) {
    case 0:
        r = hev_task_io_socket_recv (fd, v.b.data (), n, MSG_WAITALL, NULL,
                                     NULL);
        break;
    case 1:
        r = hev_task_io_socket_recvfrom (fd, v.b.data (), n, MSG_WAITALL,
                                         (struct sockaddr *)a.b, &a.len, NULL,
                                         NULL);
        break;
    default: {
        struct msghdr m;
        memset (&m, 0, sizeof (m));
        m.msg_name = a.b;
        m.msg_namelen = a.len;
        m.msg_iov = v.v.data ();
        m.msg_iovlen = v.v.size ();
        m.msg_control = cs ? ctl.c : NULL;
        m.msg_controllen = cs;
        m.msg_flags = 0x7f00; /* has to be overwritten */
        r = hev_task_io_socket_recvmsg (fd, &m, MSG_WAITALL, NULL, NULL);
        VT_CHECK (m.msg_iov == v.v.data () && m.msg_iovlen == v.v.size () &&
                      m.msg_name == a.b,
                  "vector: the caller's header was modified");
        a.len = m.msg_namelen;
        if (r >= 0) {
            int k, want = 0;
            size_t need = 0, last = 0;
            while (!rights_pending.empty () &&
                   rights_pending.front ().at < from + r) {
                size_t z = rights_pending.front ().nf * sizeof (int);
                want += rights_pending.front ().nf;
                last = need + CMSG_LEN (z);
                need += CMSG_SPACE (z);
                rights_pending.pop_front ();
            }
            VT_CHECK (m.msg_flags == (last > cs ? MSG_CTRUNC : 0),
                      "flags: %#x reported for %zu of %zu bytes of ancillary "
                      "data", m.msg_flags, cs, last);
            VT_CHECK (m.msg_controllen <= cs, "ancillary: length %zu of %zu",
                      (size_t)m.msg_controllen, cs);
            for (size_t i = cs; i < sizeof (ctl.c); i++)
                VT_CHECK (ctl.c[i] == 0x3c, "ancillary: written past the end");
            k = count_fds (&m);
            VT_CHECK (last > cs ? k < want : k == want,
                      "ancillary: %d descriptors received, %d were sent", k,
                      want);
            VT_CHECK (k || m.msg_controllen == 0,
                      "ancillary: length %zu without any",
                      (size_t)m.msg_controllen);
            meta += k > 0;
        }
        break;
    }
    }
    e = errno;
    rst = 0;
    vt_log ("recv returns %zd errno %d parts %d", r, e, inj.parts);
    bool failed = inj.err && (int)inj.moved >= inj.after;
    if (failed && r < 0) {
        VT_CHECK (r == -1 && e == inj.err && inj.moved == 0,
                  "result: failed with %zd errno %d, expected errno %d after "
                  "%zu bytes", r, e, inj.err, inj.moved);
        v.intact (0);
    } else if (r < 0) {
        VT_CHECK (r == -1 && e == ECONNRESET && l->wclosed,
                  "result: receive failed with %zd errno %d", r, e);
    } else {
        if ((size_t)r < n && !failed) {
            VT_CHECK (l->weof, "short: %zd of %zu received, stream open", r, n);
            VT_CHECK (l->sent - l->got == (uint64_t)r,
                      "short: %zd of %zu received at the end of the stream "
                      "with %llu bytes there", r, n,
                      (unsigned long long)(l->sent - l->got));
        }
        if (failed && (size_t)r < n)
            VT_CHECK ((size_t)r == inj.moved,
                      "count: %zd reported, %zu were received before the "
                      "error", r, inj.moved);
        VT_CHECK ((size_t)r <= n, "count: %zd of %zu", r, n);
        lk_take (l, v.b.data (), n, r, false);
        v.intact (r);
        if (form)
            a.check (named && r > 0 ? wnamelen : 0);
        multi += inj.parts > 1;
        transfers++;
        if (form && named)
            meta++;
    }
    memset (&inj, 0, sizeof (inj));
}

static void
do_send (void)
{
    Link *l = lk;
    int fd = l->wfd, form = vt_u (3), e;
    size_t n = gen_n ();
    Vec v (n, form == 2 ? 7 : 1);
    union {
        struct cmsghdr h;
        char c[64];
    } ctl;
    bool rights = form == 2 && !rtask && vt_chance (1, 3);
    ssize_t r;

    if (form != 2 && v.v.size () > 1)
        vt_fail ("harness: shape");
    lk_fill (l, v.b.data (), n);
    arm (fd, n, true);
    vt_log ("send form %d n %zu elements %zu rights %d err %d after %d cap %zu",
            form, n, v.v.size (), rights, inj.err, inj.after, inj.cap);
    wst = 1;
    errno = 0;
    uint64_t base = l->sent;
    /* the peer may read while the call is under way */
    l->sent += n;
    got_fds = 0;
    switch (form) {
    case 0:
        r = hev_task_io_socket_send (fd, v.b.data (), n,
                                     MSG_WAITALL | MSG_NOSIGNAL, NULL, NULL);
        break;
    case 1:
        r = hev_task_io_socket_sendto (fd, v.b.data (), n,
                                       MSG_WAITALL | MSG_NOSIGNAL, NULL, 0,
                                       NULL, NULL);
        break;
    default: {
        struct msghdr m;
        memset (&m, 0, sizeof (m));
        m.msg_iov = v.v.data ();
        m.msg_iovlen = v.v.size ();
        if (rights) {
            memset (&ctl, 0, sizeof (ctl));
            m.msg_control = ctl.c;
            m.msg_controllen = CMSG_SPACE (sizeof (int));
            struct cmsghdr *c = CMSG_FIRSTHDR (&m);
            c->cmsg_level = SOL_SOCKET;
            c->cmsg_type = SCM_RIGHTS;
            c->cmsg_len = CMSG_LEN (sizeof (int));
            int f = 1;
            memcpy (CMSG_DATA (c), &f, sizeof (int));
        }
        struct msghdr copy = m;
        r = hev_task_io_socket_sendmsg (fd, &m, MSG_WAITALL | MSG_NOSIGNAL,
                                        NULL, NULL);
        VT_CHECK (!memcmp (&copy, &m, sizeof (m)),
                  "vector: the caller's header was modified");
        break;
    }
    }
    e = errno;
    wst = 0;
    vt_log ("send returns %zd errno %d parts %d", r, e, inj.parts);
    bool failed = inj.err && (int)inj.moved >= inj.after;
    VT_CHECK (!memcmp (v.v.data (), v.copy.data (),
                       v.v.size () * sizeof (struct iovec)),
              "vector: the caller's vector was modified");
    if (r < 0) {
        l->sent = base;
        if (failed)
            VT_CHECK (r == -1 && e == inj.err && inj.moved == 0,
                      "result: failed with %zd errno %d, expected errno %d "
                      "after %zu bytes", r, e, inj.err, inj.moved);
        else
            VT_CHECK (r == -1 && l->rclosed && (e == EPIPE || e == ECONNRESET),
                      "result: send failed with %zd errno %d", r, e);
    } else {
        VT_CHECK ((size_t)r <= n, "count: %zd of %zu", r, n);
        VT_CHECK ((size_t)r == inj.moved, "count: %zd reported, %zu were sent",
                  r, inj.moved);
        if ((size_t)r < n)
            VT_CHECK (failed || l->rclosed, "short: %zd of %zu sent", r, n);
        l->sent = base + r;
        if (rights && r > 0 && !l->rclosed) {
            /* take what is left and count the descriptors */
            unsigned char b[4096];
            char cb[256];
            for (;;) {
                struct iovec iv = { b, sizeof (b) };
                struct msghdr m;
                memset (&m, 0, sizeof (m));
                m.msg_iov = &iv;
                m.msg_iovlen = 1;
                m.msg_control = cb;
                m.msg_controllen = sizeof (cb);
                ssize_t k = recvmsg (l->rfd, &m, MSG_DONTWAIT);
                if (k <= 0)
                    break;
                got_fds += count_fds (&m);
                lk_take (l, b, sizeof (b), k, false);
            }
            VT_CHECK (got_fds == 1, "ancillary: %d descriptors arrived, 1 was "
                      "sent", got_fds);
            meta++;
        }
        multi += inj.parts > 1;
        transfers++;
    }
    memset (&inj, 0, sizeof (inj));
}

static void
body (bool rd, int len)
{
    HevTask *t = hev_task_self ();
    Link *l = lk;
    int n = 0;

    hev_task_add_fd (t, rd ? l->rfd : l->wfd, rd ? POLLIN : POLLOUT);
    while (vt_more (n, len, 8)) {
        n++;
        switch (vt_weight ({ 8, 2 })) {
        case 0:
            if (rd)
                do_recv ();
            else
                do_send ();
            break;
        case 1:
            hev_task_sleep (vt_range (1, 4));
            break;
        }
        vt_sig (n * 2 + rd);
    }
    hev_task_del_fd (t, rd ? l->rfd : l->wfd);
    if (rd) {
        if (vt_bool ())
            lk_close_r (l);
        rdone = true;
    } else {
        if (vt_chance (3, 4))
            lk_close_w (l);
        wdone = true;
    }
}

static void
raw_get (Link *l, size_t n)
{
    unsigned char b[65536];
    char cb[256];
    struct iovec iv = { b, n };
    struct msghdr m;

    memset (&m, 0, sizeof (m));
    m.msg_iov = &iv;
    m.msg_iovlen = 1;
    m.msg_control = cb;
    m.msg_controllen = sizeof (cb);
    ssize_t k = recvmsg (l->rfd, &m, MSG_DONTWAIT);
    if (k <= 0)
        return;
    got_fds += count_fds (&m);
    lk_take (l, b, n, k, false);
}

static void
tick (void)
{
    Link *l = lk;
    bool late;

    if (rdone && wdone)
        return;
    if (vos_now () > last_tick) {
        struct pollfd p = { l->rfd, POLLIN, 0 };
        if (rst)
            VT_CHECK (poll (&p, 1, 0) == 0,
                      "lost: the stream can be read but its reader sleeps");
        if (wst)
            VT_CHECK (!lk_writable (l),
                      "lost: the stream can be written but its writer sleeps");
    }
    last_tick = vos_now ();
    late = ++ticks > 60;
    if ((!wtask || wdone) && !l->weof && rst && (late || vt_chance (2, 3))) {
        if (vt_chance (1, 10)) {
            lk_close_w (l);
        } else {
            lk_put (l, late ? 16000 : vt_range (1, vt_bool () ? 40 : 3000));
        }
    }
    if ((!rtask || rdone) && !l->rclosed && !wdone &&
        (late || vt_chance (1, 2))) {
        if (vt_chance (1, 20))
            lk_close_r (l);
        else
            raw_get (l, late ? 65536 : vt_pick ({ 65536, 4096, 10 }));
    }
    ts_at (vos_now () + MS * vt_range (1, 3), tick);
}

static void
bind_abstract (int fd, char *name, socklen_t *len)
{
    struct sockaddr_un a;
    int k = vt_range (1, 18);

    memset (&a, 0, sizeof (a));
    a.sun_family = AF_UNIX;
    snprintf (a.sun_path + 1, 40, "%x.%x.%.*s", getpid (), serial++, k,
              "abcdefghijklmnopqrst");
    *len = offsetof (struct sockaddr_un, sun_path) + 1 +
           strlen (a.sun_path + 1);
    if (*len > 32)
        *len = 32;
    if (bind (fd, (struct sockaddr *)&a, *len))
        vt_fail ("harness: bind %d", errno);
    memcpy (name, &a, *len);
}

static void
stream_case (void)
{
    Link l;
    int who = vt_weight ({ 3, 3, 2 });

    lk = &l;
    lk_make (&l, LK_STREAM, 0);
    rtask = who != 1;
    wtask = who != 0;
    rdone = !rtask;
    wdone = !wtask;
    rst = wst = ticks = 0;
    rights_pending.clear ();
    named = vt_bool ();
    if (named)
        bind_abstract (l.wfd, wname, &wnamelen);
    for (int x = wtask ? 0 : vt_weight ({ 4, 1, 1, 1 }); x > 0; x--) {
        /* the first bytes carry descriptors */
        size_t k = vt_range (1, 30);
        unsigned char b[32];
        union {
            struct cmsghdr h;
            char c[64];
        } ctl;
        int fds[2] = { 1, 2 }, nf = vt_range (1, 2);
        struct iovec iv = { b, k };
        struct msghdr m;
        memset (&m, 0, sizeof (m));
        memset (&ctl, 0, sizeof (ctl));
        m.msg_iov = &iv;
        m.msg_iovlen = 1;
        m.msg_control = ctl.c;
        m.msg_controllen = CMSG_SPACE (nf * sizeof (int));
        struct cmsghdr *c = CMSG_FIRSTHDR (&m);
        c->cmsg_level = SOL_SOCKET;
        c->cmsg_type = SCM_RIGHTS;
        c->cmsg_len = CMSG_LEN (nf * sizeof (int));
        memcpy (CMSG_DATA (c), fds, nf * sizeof (int));
        lk_fill (&l, b, k);
        if (sendmsg (l.wfd, &m, 0) != (ssize_t)k)
            vt_fail ("harness: sendmsg");
        rights_pending.push_back ({ l.sent, nf });
        lk_sent (&l, k);
        vt_log ("%zu bytes with %d descriptors are there", k, nf);
    }
    if (rtask) {
        int n = vt_range (1, 8);
        ts_go ([n] { body (true, n); });
    }
    if (wtask) {
        int n = vt_range (1, 8);
        ts_go ([n] { body (false, n); });
    }
    ts_at (vos_now () + MS, tick);
    ts_run ();
    VT_CHECK (rdone && wdone, "lost: a task did not finish");
    lk_close_r (&l);
    lk_close_w (&l);
    lk = NULL;
}

/* one message, sent or received in the same way on two identical sockets */
struct Shape {
    int nf, creds, fl;
    size_t n;
};

static ino_t
inode (int fd)
{
    struct stat s;
    return fstat (fd, &s) ? 0 : s.st_ino;
}

struct Got {
    ssize_t r;
    int e;
    struct msghdr m;
    unsigned char name[160], ctl[256];
    Vec *v;
};

static void
compare (Got *a, Got *b, bool fds)
{
    VT_CHECK (a->r == b->r && (a->r >= 0 || a->e == b->e),
              "result: %zd errno %d, the system call gives %zd errno %d", a->r,
              a->e, b->r, b->e);
    VT_CHECK (a->m.msg_namelen == b->m.msg_namelen,
              "address: length %u, the system call gives %u", a->m.msg_namelen,
              b->m.msg_namelen);
    VT_CHECK (a->m.msg_controllen == b->m.msg_controllen,
              "ancillary: length %zu, the system call gives %zu",
              (size_t)a->m.msg_controllen, (size_t)b->m.msg_controllen);
    VT_CHECK (a->m.msg_flags == b->m.msg_flags,
              "flags: %#x, the system call gives %#x", a->m.msg_flags,
              b->m.msg_flags);
    VT_CHECK (a->v->b == b->v->b, "data: contents differ");
    VT_CHECK (!memcmp (a->v->v.data (), a->v->copy.data (),
                       a->v->v.size () * sizeof (struct iovec)) &&
                  a->m.msg_iov == a->v->v.data () &&
                  a->m.msg_iovlen == a->v->v.size (),
              "vector: the caller's vector was modified");
    if (a->r < 0)
        return;
    struct cmsghdr *c = CMSG_FIRSTHDR (&a->m), *d = CMSG_FIRSTHDR (&b->m);
    for (; c && d; c = CMSG_NXTHDR (&a->m, c), d = CMSG_NXTHDR (&b->m, d)) {
        size_t len = c->cmsg_len - CMSG_LEN (0);
        if (!c->cmsg_len && !d->cmsg_len)
            break;
        VT_CHECK (c->cmsg_len == d->cmsg_len && c->cmsg_type == d->cmsg_type &&
                      c->cmsg_level == d->cmsg_level,
                  "ancillary: header differs");
        if ((unsigned char *)c + c->cmsg_len >
            (unsigned char *)a->m.msg_control + a->m.msg_controllen)
            break;
        if (c->cmsg_type == SCM_RIGHTS) {
            int *x = (int *)CMSG_DATA (c), *y = (int *)CMSG_DATA (d);
            for (size_t i = 0; i < len / sizeof (int); i++) {
                VT_CHECK (inode (x[i]) && inode (x[i]) == inode (y[i]) &&
                              fcntl (x[i], F_GETFD) == fcntl (y[i], F_GETFD),
                          "ancillary: different descriptor");
                close (x[i]);
                close (y[i]);
            }
        } else {
            VT_CHECK (!memcmp (CMSG_DATA (c), CMSG_DATA (d), len),
                      "ancillary: data differs");
        }
        meta++;
    }
    VT_CHECK (!c == !d || (c && !c->cmsg_len), "ancillary: count differs");
}

static int
twin_socks (int kind, int s[2], struct sockaddr_un *rn, socklen_t *rl,
            int which, int tag, bool bindw, bool conn)
{
    struct sockaddr_un a;
    int v[2];

    if (kind == LK_DGRAM) {
        v[0] = socket (AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0);
        v[1] = socket (AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0);
        for (int i = 0; i < 2; i++) {
            if (i && !bindw)
                break;
            memset (&a, 0, sizeof (a));
            a.sun_family = AF_UNIX;
            snprintf (a.sun_path + 1, 60, "%07x.%07x.%d%d", getpid (), tag,
                      which, i);
            *rl = offsetof (struct sockaddr_un, sun_path) + 1 +
                  strlen (a.sun_path + 1);
            if (bind (v[i], (struct sockaddr *)&a, *rl))
                vt_fail ("harness: bind");
            if (!i)
                *rn = a;
        }
        if (conn && connect (v[1], (struct sockaddr *)rn, *rl))
            vt_fail ("harness: connect");
    } else {
        if (socketpair (AF_UNIX,
                        (kind == LK_STREAM ? SOCK_STREAM : SOCK_SEQPACKET) |
                            SOCK_NONBLOCK,
                        0, v))
            vt_fail ("harness: socketpair");
    }
    s[0] = v[0];
    s[1] = v[1];
    return 0;
}

static void
build (struct msghdr *m, Vec *v, unsigned char *ctl, const Shape *s)
{
    memset (m, 0, sizeof (*m));
    for (size_t i = 0; i < s->n; i++)
        v->b[i] = (unsigned char)vt_hash (s->n, i);
    m->msg_iov = v->v.data ();
    m->msg_iovlen = v->v.size ();
    if (s->nf) {
        int fds[3] = { 1, 2, 1 };
        memset (ctl, 0, 256);
        m->msg_control = ctl;
        m->msg_controllen = CMSG_SPACE (s->nf * sizeof (int));
        struct cmsghdr *c = CMSG_FIRSTHDR (m);
        c->cmsg_level = SOL_SOCKET;
        c->cmsg_type = SCM_RIGHTS;
        c->cmsg_len = CMSG_LEN (s->nf * sizeof (int));
        memcpy (CMSG_DATA (c), fds, s->nf * sizeof (int));
    }
}

static void
recv_setup (Got *g, Vec *v, socklen_t ns, size_t cs, bool nm)
{
    memset (g->name, 0x3c, sizeof (g->name));
    memset (g->ctl, 0, sizeof (g->ctl));
    memset (&g->m, 0, sizeof (g->m));
    g->v = v;
    g->m.msg_name = nm ? g->name : NULL;
    g->m.msg_namelen = ns;
    g->m.msg_iov = v->v.data ();
    g->m.msg_iovlen = v->v.size ();
    g->m.msg_control = cs ? g->ctl : NULL;
    g->m.msg_controllen = cs;
    g->m.msg_flags = 0x7f00;
}

static void
twin_case (void)
{
    int kind = vt_pick ({ LK_DGRAM, LK_SEQ, LK_STREAM });
    int s[2][2], tag = serial++, on = 1;
    struct sockaddr_un rn[2];
    socklen_t rl[2] = { 0, 0 };
    bool bindw = vt_bool (), conn = vt_bool (), creds = vt_chance (1, 3);
    bool libsend = vt_chance (1, 3), done = false;
    int nm = vt_range (1, 5);

    for (int i = 0; i < 2; i++) {
        twin_socks (kind, s[i], &rn[i], &rl[i], i, tag, bindw, conn);
        if (creds)
            setsockopt (s[i][0], SOL_SOCKET, SO_PASSCRED, &on, sizeof (on));
    }
    vt_log ("%s sockets, sender bound %d, connected %d, creds %d, library %s",
            lk_name[kind], bindw, conn, creds, libsend ? "sends" : "receives");
    ts_go ([&] {
        HevTask *t = hev_task_self ();
        hev_task_add_fd (t, s[0][0], POLLIN);
        hev_task_add_fd (t, s[0][1], POLLOUT);
        for (int i = 0; i < nm; i++) {
            Shape sh;
            sh.n = vt_chance (1, 8) && kind == LK_DGRAM ? 0 : vt_range (1, 300);
            sh.nf = vt_chance (1, 2) ? vt_range (1, 3) : 0;
            sh.fl = kind == LK_SEQ && vt_bool () ? MSG_EOR : 0;
            Vec w0 (sh.n, 1), w1 (sh.n, libsend ? 4 : 1);
            unsigned char c0[256], c1[256];
            struct msghdr m0, m1;
            bool toaddr = kind == LK_DGRAM && (!conn || vt_bool ());
            build (&m0, &w0, c0, &sh);
            build (&m1, &w1, c1, &sh);
            if (toaddr) {
                m1.msg_name = &rn[0];
                m1.msg_namelen = rl[0];
                m0.msg_name = &rn[1];
                m0.msg_namelen = rl[1];
            }
            /* the reference socket gets it at once */
            if (sendmsg (s[1][1], &m0, sh.fl | MSG_NOSIGNAL) != (ssize_t)sh.n)
                vt_fail ("harness: sendmsg %d", errno);
            auto raw = [&] {
                if (sendmsg (s[0][1], &m1, sh.fl | MSG_NOSIGNAL) !=
                    (ssize_t)sh.n)
                    vt_fail ("harness: sendmsg %d", errno);
            };
            vt_sig (sh.nf * 1000 + sh.n);
            if (libsend) {
                struct msghdr copy = m1;
                int all = vt_bool () ? MSG_WAITALL : 0;
                ssize_t r;
                if (!sh.nf && !sh.fl && w1.v.size () == 1 && vt_bool ())
                    r = hev_task_io_socket_sendto (
                        s[0][1], w1.b.data (), sh.n, MSG_NOSIGNAL | all,
                        (struct sockaddr *)m1.msg_name, m1.msg_namelen, NULL,
                        NULL);
                else
                    r = hev_task_io_socket_sendmsg (
                        s[0][1], &m1, sh.fl | MSG_NOSIGNAL | all, NULL, NULL);
                VT_CHECK (r == (ssize_t)sh.n, "result: sent %zd of %zu", r,
                          sh.n);
                VT_CHECK (!memcmp (&copy, &m1, sizeof (m1)),
                          "vector: the caller's header was modified");
            }
            bool peek = vt_chance (1, 4);
            for (int round = peek; round >= 0; round--) {
                size_t n = vt_chance (3, 4) ? vt_range (1, 400) : vt_u (10);
                socklen_t ns = vt_chance (1, 2) ? 110 : vt_u (30);
                size_t cs = vt_weight ({ 2, 3, 2 });
                bool nmd = vt_chance (4, 5);
                int fl = (round ? MSG_PEEK : 0) |
                         (vt_chance (1, 4) ? MSG_TRUNC : 0) |
                         (vt_chance (1, 4) ? MSG_CMSG_CLOEXEC : 0);
                Got a, b;
                cs = cs == 0 ? 0 : cs == 1 ? 256 : vt_range (1, 60);
                if (kind == LK_STREAM && round == 0)
                    n = 400, fl &= ~MSG_TRUNC;
                if (kind == LK_STREAM)
                    fl &= ~MSG_TRUNC;
                Vec va (n, 5);
                Vec vb (n, 1);
                recv_setup (&a, &va, ns, cs, nmd);
                recv_setup (&b, &vb, ns, cs, nmd);
                if (!libsend && round == peek) {
                    if (vt_bool ())
                        raw ();
                    else
                        ts_at (vos_now () + MS * vt_range (1, 3), raw);
                }
                a.e = b.e = 0;
                vt_log ("receive into %zu, name %u, control %zu, flags %#x", n,
                        ns, cs, fl);
                errno = 0;
                if (libsend)
                    a.r = recvmsg (s[0][0], &a.m, fl);
                else
                    a.r = hev_task_io_socket_recvmsg (s[0][0], &a.m, fl, NULL,
                                                      NULL);
                a.e = errno;
                b.r = recvmsg (s[1][0], &b.m, fl);
                b.e = errno;
                vt_log ("got %zd namelen %u control %zu flags %#x", b.r,
                        b.m.msg_namelen, (size_t)b.m.msg_controllen,
                        b.m.msg_flags);
                compare (&a, &b, true);
                size_t nn = a.m.msg_namelen < ns ? a.m.msg_namelen : ns;
                if (nmd && a.r >= 0 && bindw && nn > 19) {
                    /* names differ in the last digits only */
                    VT_CHECK (!memcmp (a.name, b.name, 19),
                              "address: wrong source address");
                    meta++;
                }
                for (size_t k = nn; nmd && k < sizeof (a.name); k++)
                    VT_CHECK (a.name[k] == 0x3c || k < ns,
                              "address: written past the given size");
                transfers++;
            }
        }
        if (kind != LK_STREAM) {
            char b;
            VT_CHECK (recv (s[0][0], &b, 1, MSG_DONTWAIT) == -1 &&
                          errno == EAGAIN,
                      "extra: more messages than were sent");
        }
        /* errors */
        if (vt_chance (1, 4)) {
            struct msghdr m;
            memset (&m, 0, sizeof (m));
            errno = 0;
            ssize_t r = hev_task_io_socket_recvmsg (-1, &m, 0, NULL, NULL);
            VT_CHECK (r == -1 && errno == EBADF, "result: %zd errno %d", r,
                      errno);
            errno = 0;
            r = hev_task_io_socket_sendmsg (-1, &m, MSG_WAITALL, NULL, NULL);
            VT_CHECK (r == -1 && errno == EBADF, "result: %zd errno %d", r,
                      errno);
        }
        hev_task_del_fd (t, s[0][0]);
        hev_task_del_fd (t, s[0][1]);
        done = true;
    });
    ts_run ();
    VT_CHECK (done, "lost: the task did not finish");
    for (int i = 0; i < 2; i++) {
        close (s[i][0]);
        close (s[i][1]);
    }
}

void
prop_case (void)
{
    ts_clock ();
    vos_poll_limit = 30000;
    ts_env_clear ();
    multi = meta = errors = injected = transfers = 0;
    last_tick = vos_now ();
    memset (injs, 0, sizeof (injs));
    ts_init ();
    vos_fault = fault;
    vos_short = shorten;
    vos_after = after;
    if (vt_chance (2, 3))
        stream_case ();
    else
        twin_case ();
    vos_fault = NULL;
    vos_short = NULL;
    vos_after = NULL;
    ts_fini ();
    if (multi || meta)
        vt_nontrivial ();
    vt_label ("transfers", transfers);
    vt_label ("transfers in several parts", multi);
    vt_label ("messages with address or ancillary data", meta);
    vt_label ("injected errors", errors);
    vt_label ("injected would-blocks", injected);
    vt_sample ("transfers=%d in parts=%d metadata=%d errors=%d", transfers,
               multi, meta, errors);
}
