/* Sessions in which a task forwards data between two endpoints while the
 * outside world feeds, drains, shuts down and closes the far ends. */
#ifndef SPLICE_HPP
#define SPLICE_HPP

#include "link.hpp"
#include <sys/ioctl.h>

/* one direction: bytes go from the far writer through in, the session and out
 * to the far reader */
struct SpDir {
    int id;
    int in, out;  /* descriptors of the session */
    int fw, fr;   /* far writer and far reader */
    bool fw_sock, fr_sock;
    uint64_t sent = 0;      /* given to fw */
    uint64_t got = 0;       /* taken from fr */
    uint64_t extra = 0;     /* bytes put into the session before its start */
    uint64_t dead_at = 0;   /* delivered when the reader went away */
    bool eof = false;       /* no more will be given */
    bool outdead = false;   /* the reader has gone */
    bool reset = false;     /* the writer went away with unread data */
    bool failed = false;    /* an injected error was returned by its output */
    bool infailed = false;  /* ... or by its input */
    unsigned char byte (uint64_t pos) const
    {
        return (unsigned char)(vt_hash (0x33 + id, pos >> 3) >> (8 * (pos & 7)));
    }
};

struct Session {
    SpDir d[2];      /* 0: a to b, 1: b to a */
    bool shared[2];  /* endpoint uses one descriptor */
    bool either = false; /* ends with the first direction */
    bool in = false, done = false, aborted = false;
    int ticks = 0, limit, aggressive;
    size_t piece; /* typical size of a transfer */
    HevTask *t = NULL;
    int abort_after = -1, ycalls = 0;
    std::vector<int> fds;
    std::function<void ()> begin, end; /* in the task, around the call */
};
static std::vector<Session *> sps;
static uint64_t sp_last;
static int sp_injected, sp_finished, sp_moved;

struct SpInj {
    SpDir *d;
    int err, again;
    size_t cap;
    int after, capped;
};
static SpInj sp_inj[1024];

static bool
sp_fd (int call, int *fd)
{
    if (call != VC_readv && call != VC_writev && call != VC_splice &&
        call != VC_read && call != VC_write && call != VC_recv &&
        call != VC_send && call != VC_recvmsg && call != VC_sendmsg)
        return false;
    if (call == VC_splice && *fd >= 0 && *fd < 1024 && !sp_inj[*fd].d)
        *fd = vos_splice_to;
    return *fd >= 0 && *fd < 1024 && sp_inj[*fd].d;
}

static int
sp_fault (int call, int fd)
{
    bool wr = call == VC_writev || call == VC_write || call == VC_send ||
              call == VC_sendmsg || (call == VC_splice && !sp_inj[fd].d);
    if (!sp_fd (call, &fd))
        return 0;
    SpInj *i = &sp_inj[fd];
    if (i->after) {
        i->after--;
        return 0;
    }
    if (i->again) {
        i->again--;
        sp_injected++;
        vos_rearm (fd);
        return EAGAIN;
    }
    if (i->err) {
        /* a shared descriptor serves both directions */
        Session *s = NULL;
        for (Session *x : sps)
            for (auto &d : x->d)
                if (d.in == fd || d.out == fd)
                    s = x;
        for (auto &d : s->d)
            if ((wr ? d.out : d.in) == fd)
                (wr ? d.failed : d.infailed) = true;
        sp_injected++;
        return i->err;
    }
    return 0;
}

static size_t
sp_short (int call, int fd, size_t want)
{
    if (!sp_fd (call, &fd))
        return want;
    if (!sp_inj[fd].cap || sp_inj[fd].cap >= want || ++sp_inj[fd].capped > 200)
        return want;
    return sp_inj[fd].cap;
}

static uint64_t
sp_queued (int fd)
{
    int n = 0;
    return fd >= 0 && ioctl (fd, FIONREAD, &n) == 0 ? n : 0;
}

static uint64_t
sp_delivered (SpDir *d)
{
    return d->outdead ? d->dead_at : d->got + sp_queued (d->fr);
}

static uint64_t
sp_consumed (SpDir *d)
{
    return d->extra + d->sent - sp_queued (d->in);
}

static bool
sp_can (int fd, short ev)
{
    struct pollfd p = { fd, ev, 0 };
    return poll (&p, 1, 0) > 0 && (p.revents & ev);
}

/* the direction has nothing left to do, or failed */
static bool
sp_ended (SpDir *d)
{
    uint64_t fly = sp_consumed (d) - sp_delivered (d);

    return d->failed ||
           (d->outdead && fly &&
            sp_can (d->out, POLLOUT | POLLERR | POLLHUP)) ||
           (!fly && (d->infailed || (d->eof && !sp_queued (d->in))));
}

static void
sp_drain (SpDir *d, size_t n)
{
    static unsigned char b[65536];
    ssize_t r;

    if (d->fr < 0 || d->outdead)
        return;
    r = read (d->fr, b, n > sizeof (b) ? sizeof (b) : n);
    if (r <= 0)
        return;
    VT_CHECK (d->got + r <= d->sent + d->extra,
              "invented: %llu bytes came out, %llu went in",
              (unsigned long long)(d->got + r),
              (unsigned long long)(d->sent + d->extra));
    for (ssize_t i = 0; i < r; i++)
        VT_CHECK (b[i] == d->byte (d->got + i),
                  "data: wrong byte at offset %llu of direction %d",
                  (unsigned long long)(d->got + i), d->id & 1);
    d->got += r;
    sp_moved += r;
}

static void
sp_feed (SpDir *d, size_t n)
{
    static unsigned char b[65536];
    ssize_t r;

    if (d->fw < 0 || d->eof)
        return;
    if (n > sizeof (b))
        n = sizeof (b);
    for (size_t i = 0; i < n; i++)
        b[i] = d->byte (d->extra + d->sent + i);
    r = write (d->fw, b, n);
    if (r > 0)
        d->sent += r;
}

/* no more input from the far writer */
static void
sp_eof (SpDir *d)
{
    if (d->fw < 0 || d->eof)
        return;
    d->eof = true;
    if (d->fw_sock) {
        shutdown (d->fw, SHUT_WR);
    } else {
        close (d->fw);
        d->fw = -1;
    }
}

/* the far reader goes away */
static void
sp_kill (Session *s, SpDir *d)
{
    if (d->fr < 0 || d->outdead)
        return;
    d->dead_at = sp_delivered (d);
    d->outdead = true;
    if (d->fr_sock) {
        shutdown (d->fr, SHUT_RD);
    } else {
        close (d->fr);
        d->fr = -1;
    }
}

/* a far socket goes away altogether */
static void
sp_close (Session *s, int k)
{
    SpDir *o = &s->d[k], *i = &s->d[!k]; /* o is read by it, i written */

    if (o->fr != i->fw || o->fr < 0)
        return;
    if (sp_queued (o->fr))
        i->reset = true;
    o->dead_at = o->outdead ? o->dead_at : sp_delivered (o);
    o->outdead = true;
    i->eof = true;
    close (o->fr);
    o->fr = i->fw = -1;
}

static bool
sp_may_end (Session *s)
{
    bool e[2];

    for (int i = 0; i < 2; i++)
        e[i] = sp_ended (&s->d[i]) || s->d[i].outdead || s->d[i].reset ||
               s->d[i].infailed;
    return s->either ? e[0] || e[1] : e[0] && e[1];
}

static size_t
sp_size (Session *s)
{
    switch (vt_weight ({ 4, 4, 2, 1 })) {
    case 0:
        return vt_range (1, 16);
    case 1:
        return vt_range (1, 2 * s->piece);
    case 2:
        return s->piece;
    }
    return vt_range (1, 20000);
}

static void
sp_show (Session *s)
{
    for (int i = 0; i < 2; i++)
        vt_log ("direction %d: sent %llu+%llu consumed %llu delivered %llu%s%s%s%s",
                i, (unsigned long long)s->d[i].extra,
                (unsigned long long)s->d[i].sent,
                (unsigned long long)sp_consumed (&s->d[i]),
                (unsigned long long)sp_delivered (&s->d[i]),
                s->d[i].eof ? " eof" : "", s->d[i].outdead ? " outdead" : "",
                s->d[i].reset ? " reset" : "", s->d[i].failed ? " failed" : s->d[i].infailed ? " infailed" : "");
}

static void
sp_tick (void)
{
    bool all = true;

    for (Session *s : sps) {
        if (s->done)
            continue;
        all = false;
        if (!s->in || vos_now () <= sp_last)
            continue;
        bool e[2];
        for (int i = 0; i < 2; i++)
            e[i] = sp_ended (&s->d[i]);
        bool must = s->either ? e[0] || e[1] : e[0] && e[1];
        if (must)
            sp_show (s);
        VT_CHECK (!must, "stall: everything has ended, but the call has not "
                         "returned");
        for (int i = 0; i < 2; i++) {
            SpDir *d = &s->d[i];
            if (e[i] || d->reset || d->infailed)
                continue;
            uint64_t fly = sp_consumed (d) - sp_delivered (d);
            VT_CHECK (!(fly && sp_can (d->out, POLLOUT)),
                      "stall: %llu bytes of direction %d stay inside while the "
                      "output is writable", (unsigned long long)fly, i);
            VT_CHECK (fly || !sp_queued (d->in),
                      "stall: input of direction %d is not read", i);
        }
    }
    if (all)
        return;
    sp_last = vos_now ();
    for (Session *s : sps) {
        if (s->done || !s->in)
            continue;
        s->ticks++;
        for (int i = 0; i < 2; i++) {
            SpDir *d = &s->d[i];
            if (s->ticks > s->limit) {
                sp_eof (d);
                sp_drain (d, 65536);
                if (d->outdead && d->fr >= 0) {
                    if (d->fr == s->d[!i].fw) {
                        sp_close (s, i);
                    } else {
                        close (d->fr);
                        d->fr = -1;
                    }
                }
                continue;
            }
            if (vt_chance (1, 2))
                sp_feed (d, sp_size (s));
            if (vt_chance (1, 2))
                sp_drain (d, sp_size (s));
            if (vt_chance (1, 25))
                sp_eof (d);
            if (s->aggressive && vt_chance (1, 60))
                sp_kill (s, d);
            if (s->aggressive && vt_chance (1, 90))
                sp_close (s, i);
        }
        if (s->t && s->in && vt_chance (1, 10))
            hev_task_wakeup (s->t);
    }
    ts_at (vos_now () + 1000, sp_tick);
}

static int
sp_pair (int *near_, int *far_, bool sock, bool near_reads)
{
    int v[2], sz = 4096;

    if (sock) {
        if (socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, v))
            vt_fail ("harness: socketpair");
        setsockopt (v[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        setsockopt (v[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        *near_ = v[0];
        *far_ = v[1];
    } else {
        if (vt_pipe (v))
            vt_fail ("harness: pipe");
        if (vt_bool ())
            fcntl (v[0], F_SETPIPE_SZ, 4096);
        *near_ = v[!near_reads];
        *far_ = v[near_reads];
    }
    return 0;
}

/* make an endpoint: d[k].in and d[!k].out */
static void
sp_endpoint (Session *s, int k, bool shared)
{
    SpDir *i = &s->d[k], *o = &s->d[!k];
    int n, f;

    s->shared[k] = shared;
    if (shared) {
        sp_pair (&n, &f, true, true);
        i->in = o->out = n;
        i->fw = o->fr = f;
        i->fw_sock = o->fr_sock = true;
        s->fds.push_back (n);
    } else {
        i->fw_sock = vt_bool ();
        sp_pair (&i->in, &i->fw, i->fw_sock, true);
        o->fr_sock = vt_bool ();
        sp_pair (&o->out, &o->fr, o->fr_sock, false);
        s->fds.push_back (i->in);
        s->fds.push_back (o->out);
    }
}

static Session *
sp_new (void)
{
    Session *s = new Session;
    int id = sps.size ();

    s->d[0].id = id * 2;
    s->d[1].id = id * 2 + 1;
    for (int k = 0; k < 2; k++)
        sp_endpoint (s, k, vt_chance (1, 3));
    s->limit = vt_range (0, 60);
    s->aggressive = vt_chance (1, 3);
    for (int fd : s->fds) {
        SpInj *j = &sp_inj[fd];
        j->d = &s->d[0];
        j->err = s->aggressive && vt_chance (1, 12) ? vt_errno () : 0;
        j->again = vt_chance (1, 5) ? vt_range (1, 3) : 0;
        j->cap = vt_chance (1, 6) ? vt_range (1, 40) : 0;
        j->after = vt_range (0, 12);
    }
    sps.push_back (s);
    return s;
}

static int
sp_yielder (HevTaskYieldType type, void *data)
{
    Session *s = (Session *)data;

    if (++s->ycalls == s->abort_after) {
        s->aborted = true;
        return -1;
    }
    hev_task_yield (type);
    return 0;
}

static void
sp_register (Session *s)
{
    HevTask *t = hev_task_self ();
    for (int fd : s->fds)
        if (hev_task_add_fd (t, fd, POLLIN | POLLOUT) < 0)
            vt_fail ("create: registration failed");
}

/* the call has returned */
static void
sp_returned (Session *s)
{
    s->in = false;
    sp_show (s);
    VT_CHECK (s->aborted || sp_may_end (s),
              "result: the call returned before the directions had ended");
    sp_finished++;
}

/* look at what is left, close everything */
static void
sp_free (Session *s, bool close_near)
{
    for (int i = 0; i < 2; i++) {
        SpDir *d = &s->d[i];
        while (!d->outdead && sp_queued (d->fr))
            sp_drain (d, 65536);
    }
    if (close_near)
        for (int fd : s->fds)
            close (fd);
    for (int fd : s->fds)
        sp_inj[fd].d = NULL;
    for (int i = 0; i < 2; i++) {
        SpDir *d = &s->d[i], *o = &s->d[!i];
        if (d->fw >= 0) {
            close (d->fw);
            if (o->fr == d->fw)
                o->fr = -1;
            d->fw = -1;
        }
    }
    for (int i = 0; i < 2; i++)
        if (s->d[i].fr >= 0)
            close (s->d[i].fr);
}

static void
sp_reset (void)
{
    sps.clear ();
    memset (sp_inj, 0, sizeof (sp_inj));
    sp_injected = sp_finished = sp_moved = 0;
    sp_last = vos_now ();
    vos_fault = sp_fault;
    vos_short = sp_short;
}
#endif
