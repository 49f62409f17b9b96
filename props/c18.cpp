// VARIANTS default:1200000:4000000 heap:180000:600000 asan:45000:150000
#include "link.hpp"
#include <sys/eventfd.h>

const char *prop_id = "C18";
const char *prop_rule =
    "A case is 1-3 tasks polling generated sets of pipes, sockets, event "
    "descriptors, listening sockets, files, negative and invalid descriptors for "
    "generated events and timeouts, while the other ends are used, shut down and "
    "closed at generated times and the tasks are woken spuriously. Non-trivial: "
    "at least one poll that waited and one that found something. Distinct by the "
    "executed trace.";

enum { K_PR, K_PW, K_SS, K_EV, K_LS, K_FILE, K_NUL, K_NEG, K_BAD };
static const char *const kname[] = { "pipe-r", "pipe-w", "socket", "event",
                                     "listen", "file", "null", "negative",
                                     "invalid" };
struct F {
    int kind, fd, peer = -1;
    struct sockaddr_storage ss;
    socklen_t sl;
};
struct P {
    std::vector<F> f;
    std::vector<struct pollfd> cur;
    bool in = false, done = false;
    uint64_t start;
    long timeout;
    int wakes;
    HevTask *t = NULL;
    int len;
    bool quiet;
    bool calm = false; /* nothing happens to it for long */
};
static std::vector<P *> ps;
static uint64_t steps, last_tick;
static int waited, found, timeouts, polls, ticks;
static std::vector<int> extra;

static F
make (bool quiet)
{
    F f;
    int v[2];

    f.kind = quiet ? vt_pick ({ K_PR, K_SS })
                   : vt_weight ({ 4, 3, 5, 2, 1, 1, 1, 1, 1 });
    switch (f.kind) {
    case K_PR:
    case K_PW:
        if (vt_pipe (v))
            vt_fail ("harness: pipe");
        fcntl (v[0], F_SETPIPE_SZ, 4096);
        f.fd = v[f.kind == K_PW];
        f.peer = v[f.kind == K_PR];
        break;
    case K_SS:
        if (socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, v))
            vt_fail ("harness: socketpair");
        f.fd = v[0];
        f.peer = v[1];
        break;
    case K_EV:
        f.fd = eventfd (vt_u (2), EFD_NONBLOCK);
        break;
    case K_LS: {
        memset (&f.ss, 0, sizeof (f.ss));
        f.ss.ss_family = AF_UNIX;
        f.fd = socket (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
        if (bind (f.fd, (struct sockaddr *)&f.ss, sizeof (sa_family_t)) ||
            listen (f.fd, 8))
            vt_fail ("harness: listen");
        f.sl = sizeof (f.ss);
        getsockname (f.fd, (struct sockaddr *)&f.ss, &f.sl);
        break;
    }
    case K_FILE: {
        char n[300];
        snprintf (n, sizeof (n), "%s/c18.%d", getenv ("VT_SCRATCH"), getpid ());
        f.fd = open (n, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
        unlink (n);
        break;
    }
    case K_NUL:
        f.fd = open ("/dev/null", O_RDWR);
        break;
    case K_NEG:
        f.fd = -(int)vt_range (1, 5);
        break;
    case K_BAD:
        f.fd = vt_range (500, 900);
        break;
    }
    return f;
}

static void
fill (int fd)
{
    static char b[4096];
    while (write (fd, b, sizeof (b)) > 0)
        ;
    while (write (fd, b, 1) > 0)
        ;
}

static void
drain (int fd)
{
    static char b[65536];
    while (read (fd, b, sizeof (b)) > 0)
        ;
}

/* something happens to the other end */
static void
poke (F *f)
{
    char b[16] = { 0 };
    uint64_t one = 1;

    switch (f->kind) {
    case K_PR:
        if (f->peer < 0)
            break;
        if (vt_chance (1, 6)) {
            close (f->peer);
            f->peer = -1;
        } else if (write (f->peer, b, vt_range (1, 16)) < 0) {
        }
        break;
    case K_PW:
        if (f->peer < 0)
            break;
        if (vt_chance (1, 6)) {
            close (f->peer);
            f->peer = -1;
        } else {
            drain (f->peer);
        }
        break;
    case K_SS:
        if (f->peer < 0)
            break;
        switch (vt_weight ({ 4, 3, 1, 1, 1, 1 })) {
        case 0:
            if (write (f->peer, b, vt_range (1, 16)) < 0) {
            }
            break;
        case 1:
            drain (f->peer);
            break;
        case 2:
            shutdown (f->peer, SHUT_WR);
            break;
        case 3:
            shutdown (f->peer, SHUT_RD);
            break;
        case 4:
            close (f->peer);
            f->peer = -1;
            break;
        case 5:
            send (f->peer, b, 1, MSG_OOB | MSG_DONTWAIT | MSG_NOSIGNAL);
            break;
        }
        break;
    case K_EV:
        if (vt_chance (1, 4)) {
            if (read (f->fd, &one, 8) < 0) {
            }
        } else if (write (f->fd, &one, 8) < 0) {
        }
        break;
    case K_LS:
        if (extra.size () < 8) {
            int c = socket (AF_UNIX, SOCK_STREAM, 0);
            if (connect (c, (struct sockaddr *)&f->ss, f->sl)) {
            }
            extra.push_back (c);
        }
        break;
    }
}

/* the task itself uses what it has */
static void
use (F *f)
{
    char b[16];
    uint64_t v;

    switch (f->kind) {
    case K_PR:
        if (vt_bool ())
            drain (f->fd);
        else if (read (f->fd, b, vt_range (1, 16)) < 0) {
        }
        break;
    case K_PW:
        fill (f->fd);
        break;
    case K_SS:
        if (vt_bool ())
            drain (f->fd);
        else if (vt_bool ())
            fill (f->fd);
        else if (vt_chance (1, 6))
            shutdown (f->fd, SHUT_WR);
        break;
    case K_EV:
        if (vt_bool ()) {
            if (read (f->fd, &v, 8) < 0) {
            }
        } else {
            v = 0xfffffffffffffffeull;
            if (write (f->fd, &v, 8) < 0) {
            }
        }
        break;
    case K_LS: {
        int c = accept (f->fd, NULL, NULL);
        if (c >= 0)
            close (c);
        break;
    }
    }
}

static short
gen_events (void)
{
    switch (vt_weight ({ 4, 3, 2, 1, 3 })) {
    case 0:
        return POLLIN;
    case 1:
        return POLLOUT;
    case 2:
        return POLLIN | POLLOUT;
    case 3:
        return 0;
    }
    short e = 0;
    for (int b : { POLLIN, POLLOUT, POLLPRI, POLLRDHUP, POLLRDNORM, POLLWRNORM,
                   POLLRDBAND, POLLWRBAND, POLLERR, POLLHUP, POLLNVAL })
        if (vt_chance (1, 4))
            e |= b;
    return e;
}

static int
raw (const std::vector<struct pollfd> &a, std::vector<struct pollfd> *out)
{
    *out = a;
    for (auto &p : *out)
        p.revents = 0x5555;
    return poll (out->data (), out->size (), 0);
}

static void
do_poll (P *p)
{
    std::vector<struct pollfd> want, ref;
    int r, n;

    p->cur.clear ();
    for (F &f : p->f)
        if (vt_chance (3, 4)) {
            struct pollfd q = { f.fd, p->quiet ? (short)POLLIN : gen_events (),
                                0x7777 };
            bool dup = false;
            for (auto &o : p->cur)
                dup = dup || o.fd == q.fd;
            if (!dup)
                p->cur.push_back (q);
        }
    for (size_t i = p->cur.size (); i > 1; i--)
        std::swap (p->cur[i - 1], p->cur[vt_u (i)]);
    want = p->cur;
    n = raw (want, &ref);
    switch (vt_weight ({ 2, 5, 2 })) {
    case 0:
        p->timeout = 0;
        break;
    case 1:
        p->timeout = vt_chance (1, 4) ? vt_range (40, 400) : vt_range (1, 40);
        break;
    case 2:
        /* endless or very long, if the world can make something ready in time */
        p->timeout = vt_pick ({ -1, -1, -7, INT32_MIN });
        if (vt_chance (1, 4))
            p->timeout = vt_pick ({ 1000, 32768, 65536, 70000, 2147484, 4294968,
                                    INT32_MAX });
        p->calm = p->timeout > 0 && vt_bool ();
        if (!n)
            ts_at (vos_now () + MS * vt_range (1, p->calm ? 40000 : 20), [p] {
                /* a way out: an event on an event descriptor or a close */
                if (!p->in || (p->timeout >= 0 && p->timeout < 1000))
                    return;
                last_tick = vos_now ();
                for (F &f : p->f) {
                    if (f.kind == K_PR && f.peer >= 0) {
                        close (f.peer);
                        f.peer = -1;
                    }
                    if ((f.kind == K_SS || f.kind == K_PW) && f.peer >= 0) {
                        close (f.peer);
                        f.peer = -1;
                    }
                }
            });
        {
            bool out = n != 0;
            for (auto &q : p->cur)
                for (F &f : p->f)
                    if (f.fd == q.fd && f.peer >= 0)
                        out = true;
            if (!out)
                p->timeout = vt_range (1, 40);
        }
        break;
    }
    vt_log ("poll of %zu for %ld ms, %d ready now", p->cur.size (), p->timeout,
            n);
    for (auto &q : p->cur)
        for (F &f : p->f)
            if (f.fd == q.fd)
                vt_log ("  %s %d events %#x", kname[f.kind], q.fd, q.events);
    p->start = vos_now ();
    p->wakes = 0;
    p->in = true;
    uint64_t st = ++steps;
    errno = 0;
    r = hev_task_io_poll (p->cur.data (), p->cur.size (), p->timeout);
    p->in = p->calm = false;
    bool susp = st != steps;
    steps++;
    uint64_t el = vos_now () - p->start;
    n = raw (want, &ref);
    vt_log ("poll gives %d after %llu us, the system call %d", r,
            (unsigned long long)(el / 1000), n);
    polls++;
    VT_CHECK (r == n, "result: %d, the system call gives %d", r, n);
    for (size_t i = 0; i < want.size (); i++) {
        VT_CHECK (p->cur[i].fd == want[i].fd && p->cur[i].events ==
                      want[i].events,
                  "result: the caller's set was modified");
        VT_CHECK (p->cur[i].revents == ref[i].revents,
                  "events: %#x for descriptor %d, the system call gives %#x",
                  p->cur[i].revents, want[i].fd, ref[i].revents);
    }
    if (p->timeout == 0)
        VT_CHECK (!susp && el == 0, "blocked: zero timeout waited");
    if (p->timeout > 0) {
        uint64_t t = p->timeout * MS;
        VT_CHECK (el <= t, "late: %llu us for a timeout of %ld ms",
                  (unsigned long long)(el / 1000), p->timeout);
        if (r == 0)
            VT_CHECK (el + (uint64_t)p->wakes * MS >= t,
                      "early: nothing after %llu us of %ld ms",
                      (unsigned long long)(el / 1000), p->timeout);
    }
    if (p->timeout < 0)
        VT_CHECK (r != 0, "early: endless poll found nothing");
    waited += el > 0;
    found += r > 0;
    timeouts += r == 0;
    vt_sig (r * 100 + (el > 0) * 10 + p->cur.size ());
}

static void
body (P *p)
{
    p->t = hev_task_self ();
    for (int n = 0; n < p->len; n++) {
        steps++;
        switch (vt_weight ({ 6, 4, 1, 1, 1 })) {
        case 0:
            do_poll (p);
            break;
        case 1:
            use (&p->f[vt_u (p->f.size ())]);
            break;
        case 2: {
            F *f = &p->f[vt_u (p->f.size ())];
            if (vt_bool ())
                hev_task_add_fd (p->t, f->fd, vt_bool () ? POLLIN : POLLOUT);
            else
                hev_task_del_fd (p->t, f->fd);
            break;
        }
        case 3:
            hev_task_sleep (vt_range (1, 3));
            break;
        case 4:
            poke (&p->f[vt_u (p->f.size ())]);
            break;
        }
    }
    /* a task takes its descriptors back before it ends */
    for (F &f : p->f)
        hev_task_del_fd (p->t, f.fd);
    p->t = NULL;
    p->done = true;
    steps++;
}

static void
tick (void)
{
    bool all = true;

    for (P *p : ps) {
        std::vector<struct pollfd> ref, want;
        all = all && p->done;
        if (p->in && vos_now () > last_tick) {
            want = p->cur;
            VT_CHECK (raw (want, &ref) == 0,
                      "lost: something is ready, but the polling task sleeps");
        }
    }
    if (all)
        return;
    last_tick = vos_now ();
    if (++ticks < 300)
        for (P *p : ps) {
            if (!p->done && !p->calm && vt_chance (1, 3) && ++p->wakes)
                poke (&p->f[vt_u (p->f.size ())]);
            if (p->in && p->t && vt_chance (1, 6)) {
                p->wakes++;
                hev_task_wakeup (p->t);
            }
        }
    bool calm = false;
    for (P *p : ps)
        calm = calm || p->calm;
    ts_at (vos_now () + vt_range (1, 5000) * (calm ? 200000 : 1000), tick);
}

void
prop_case (void)
{
    int np = vt_weight ({ 5, 2, 1 }) + 1;

    ts_clock ();
    vos_poll_limit = 30000;
    ts_env_clear ();
    ps.clear ();
    extra.clear ();
    steps = 0;
    waited = found = timeouts = polls = ticks = 0;
    last_tick = vos_now ();
    ts_init ();
    for (int i = 0; i < np; i++) {
        P *p = new P;
        int nf = vt_chance (1, 300) ? vt_range (20, 200) : vt_range (1, 6);
        /* many of which nearly none is ready */
        p->quiet = nf > 6 && vt_bool ();
        for (int k = 0; k < nf; k++)
            p->f.push_back (make (p->quiet));
        p->len = vt_range (1, 14);
        ps.push_back (p);
    }
    for (P *p : ps)
        ts_go ([p] { body (p); });
    ts_at (vos_now () + MS, tick);
    ts_run ();
    for (P *p : ps)
        VT_CHECK (p->done, "lost: a task did not finish");
    ts_fini ();
    for (P *p : ps) {
        for (F &f : p->f) {
            if (f.kind < K_NEG)
                close (f.fd);
            if (f.peer >= 0)
                close (f.peer);
        }
        delete p;
    }
    for (int c : extra)
        close (c);
    if (waited && found)
        vt_nontrivial ();
    vt_label ("polls", polls);
    vt_label ("polls that waited", waited);
    vt_label ("polls that found something", found);
    vt_label ("timeouts", timeouts);
    vt_sample ("tasks=%d polls=%d waited=%d found=%d timeouts=%d", np, polls,
               waited, found, timeouts);
}
