// VARIANTS default:600000:1500000 heap:200000:500000 asan:32000:80000
#include "ts.hpp"
#include <fcntl.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>

const char *prop_id = "C12";
const char *prop_rule =
    "A case is 1-4 tasks and 1-12 event descriptors, pipe ends and sockets "
    "(rarely hundreds to over a thousand), registered, changed, moved between "
    "tasks and removed at generated moments while an outside peer makes them "
    "ready or hangs up; whenever the event loop is idle no waiting task may own "
    "a ready descriptor. Non-trivial: at least two wake-ups by readiness and one "
    "registration change. Distinct by the executed trace.";

enum { EVT, PRD, PWR, SOCK, DGRAM, FILEFD };
struct F {
    int kind, fd, peer;
    int owner = -1; /* task it is registered for */
    unsigned ev = 0;
    bool closed = false;
};
struct T {
    HevTask *h;
    int id;
    bool waiting = false, done = false, cause = false, fill;
    int wakes = 0;
};
static std::vector<F *> fs;
static std::vector<T *> ts;
static uint64_t last_ev, ended;
static int changes, readies, checks, big, busies;

static void
cause_all (void)
{
    for (T *t : ts)
        t->cause = true;
}

/* a task that waits although a descriptor of its is ready */
static F *
overdue (void)
{
    for (F *f : fs) {
        if (f->owner < 0 || f->closed || !ts[f->owner]->waiting)
            continue;
        struct pollfd p = { f->fd, (short)f->ev, 0 };
        if (f->kind != FILEFD && poll (&p, 1, 0) > 0)
            return f;
    }
    return NULL;
}

static void
idle_check (void)
{
    checks++;
    vt_log ("%llu idle", (unsigned long long)vos_now ());
    for (F *f : fs) {
        if (f->owner < 0 || f->closed)
            continue;
        T *t = ts[f->owner];
        if (!t->waiting)
            continue;
        struct pollfd p = { f->fd, (short)f->ev, 0 };
        poll (&p, 1, 0);
        if (f->kind == PWR || f->kind == PRD || f->kind == EVT ||
            f->kind == SOCK || f->kind == DGRAM)
            VT_CHECK (!p.revents,
                      "lost: task %d waits while descriptor %d (kind %d, "
                      "events %x) is ready (%x)",
                      f->owner, f->fd, f->kind, f->ev, p.revents);
    }
}

static void
drain (int fd)
{
    char b[65536];
    while (read (fd, b, sizeof (b)) > 0)
        ;
}

static void
touch (F *f)
{
    if (f->owner >= 0)
        ts[f->owner]->cause = true;
}

static void
act (void)
{
    static char b[4096];
    int n = big ? vt_range (1, 3) : vt_weight ({ 8, 2, 1 }) + 1;

    if (big && vt_chance (2, 3)) {
        /* everything at once */
        for (F *f : fs)
            if (!f->closed && f->kind == EVT) {
                uint64_t one = 1;
                touch (f);
                if (write (f->fd, &one, 8) < 0) {
                }
            }
        readies++;
        return;
    }
    for (int i = 0; i < n; i++) {
        F *f = fs[vt_u (fs.size ())];
        int op = vt_weight ({ 6, 6, 1 });
        if (f->closed)
            continue;
        vt_log ("%llu outside: op %d on %d (kind %d owner %d ev %x)",
                (unsigned long long)vos_now (), op, f->fd, f->kind, f->owner,
                f->ev);
        vt_sig (0x400 + f->kind * 4 + op);
        switch (f->kind) {
        case EVT: {
            uint64_t one = 1;
            touch (f);
            if (op == 0 && write (f->fd, &one, 8) < 0) {
            }
            if (op == 1) {
                /* fill it up: not writable any more */
                one = 0xfffffffffffffffeull;
                drain (f->fd);
                if (write (f->fd, &one, 8) < 0) {
                }
            }
            if (op == 2)
                drain (f->fd);
            break;
        }
        case PRD:
            if (f->peer < 0)
                break;
            touch (f);
            if (op < 2) {
                if (write (f->peer, b, vt_range (1, 600)) < 0) {
                }
            } else {
                close (f->peer);
                f->peer = -1;
            }
            break;
        case PWR:
            if (f->peer < 0)
                break;
            touch (f);
            if (op == 0)
                drain (f->peer);
            else if (op == 1 && read (f->peer, b, vt_range (1, 4096)) < 0) {
            }
            if (op == 2) {
                close (f->peer);
                f->peer = -1;
            }
            break;
        case SOCK:
        case DGRAM:
            if (f->peer < 0)
                break;
            touch (f);
            if (op == 0) {
                if (write (f->peer, b, vt_range (1, 600)) < 0) {
                }
            } else if (op == 1) {
                drain (f->peer);
            } else if (f->kind == SOCK && vt_bool ()) {
                shutdown (f->peer, SHUT_WR);
            } else {
                close (f->peer);
                f->peer = -1;
            }
            break;
        }
        if (f->owner >= 0)
            readies++;
    }
}

static void
env_act (void)
{
    if (vos_now () > last_ev)
        idle_check ();
    last_ev = vos_now ();
    act ();
}

/* a task that never waits makes descriptors ready */
static void
busy_body (uint64_t end)
{
    int n = vt_range (1, 6);

    while (n-- && vos_now () < end) {
        F *f;
        hev_task_sleep (vt_range (1, 4));
        act ();
        for (int i = 0; (f = overdue ()); i++) {
            VT_CHECK (i < 500, "starved: task %d waits while descriptor %d is "
                               "ready and another task runs",
                      f->owner, f->fd);
            hev_task_yield (HEV_TASK_YIELD);
        }
        busies++;
    }
}

static void
retire (F *f, T *t)
{
    VT_CHECK (hev_task_del_fd (t->h, f->fd) == 0, "result: removal failed");
    f->owner = -1;
    close (f->fd);
    f->closed = true;
}

/* use every descriptor of the task until it would block */
static void
use_all (T *t)
{
    static char b[65536];

    for (size_t i = 0; i < fs.size (); i++) {
        F *f = fs[i];
        ssize_t r;
        bool dead = false;
        if (f->owner != t->id || f->closed)
            continue;
        if (f->kind == EVT) {
            uint64_t v = 1;
            if (f->ev & POLLIN)
                while (read (f->fd, &v, 8) == 8)
                    ;
            if (f->ev & POLLOUT) {
                if (read (f->fd, &v, 8) < 0) {
                }
                v = 0xfffffffffffffffeull;
                while (write (f->fd, &v, 8) == 8)
                    ;
                if (f->ev & POLLIN) /* cannot be blocked both ways */
                    retire (f, t);
            }
            continue;
        }
        if (f->ev & POLLIN && f->kind != PWR) {
            while ((r = read (f->fd, b, sizeof (b))) > 0)
                ;
            if (r == 0 || errno != EAGAIN)
                dead = true;
        }
        if (f->ev & POLLOUT && f->kind != PRD) {
            while ((r = send (f->fd, b, 4096, MSG_NOSIGNAL)) > 0 ||
                   (r < 0 && errno == ENOTSOCK &&
                    (r = write (f->fd, b, 4096)) > 0))
                ;
            if (errno != EAGAIN)
                dead = true;
        }
        struct pollfd p = { f->fd, 0, 0 };
        poll (&p, 1, 0);
        if (dead || p.revents)
            retire (f, t);
    }
}

static void
change (T *t)
{
    F *f = fs[vt_u (fs.size ())];
    static const unsigned evs[] = { POLLIN, POLLOUT, POLLIN | POLLOUT, POLLIN,
                                    POLLIN, 0, POLLERR };
    unsigned ev = evs[vt_u (7)];
    T *to = vt_chance (1, 3) ? ts[vt_u (ts.size ())] : t;
    int op = vt_weight ({ 5, 3, 2 }), r, e, want = 0;

    if (to->done)
        to = t;
    if (vt_chance (1, 20)) {
        /* descriptors nobody can register */
        int bad = vt_pick ({ -1, 4000, 100000 });
        errno = 0;
        r = op == 0   ? hev_task_add_fd (to->h, bad, ev)
            : op == 1 ? hev_task_mod_fd (to->h, bad, ev)
                      : hev_task_del_fd (to->h, bad);
        VT_CHECK (r < 0 && errno == EBADF, "result: call on a bad descriptor "
                  "returned %d (%d)", r, errno);
        return;
    }
    vt_log ("task %d: op %d on %d for task %d events %x (owner %d)", t->id, op,
            f->fd, to->id, ev, f->owner);
    vt_sig (0x800 + op * 64 + t->id * 8 + to->id);
    if (f->closed)
        want = EBADF;
    else if (f->kind == FILEFD)
        want = EPERM;
    else if (op == 0 && f->owner >= 0)
        want = EEXIST;
    else if (op != 0 && f->owner < 0)
        want = ENOENT;
    errno = 0;
    int fd = f->closed ? 4000 : f->fd;
    r = op == 0   ? hev_task_add_fd (to->h, fd, ev)
        : op == 1 ? hev_task_mod_fd (to->h, fd, ev)
                  : hev_task_del_fd (to->h, fd);
    e = errno;
    if (want) {
        VT_CHECK (r == -1 && e == want,
                  "result: op %d returned %d errno %d, the kernel says %d", op,
                  r, e, want);
        return;
    }
    VT_CHECK (r == 0, "result: op %d returned %d errno %d", op, r, e);
    if (op == 2) {
        f->owner = -1;
    } else {
        f->owner = to->id;
        f->ev = ev;
        to->cause = true;
    }
    changes++;
}

static void
body (T *t)
{
    int budget = vt_range (1, 12);

    for (;;) {
        bool yielded = false;
        use_all (t);
        if (ended)
            break;
        while (budget > 0 && vt_chance (2, 3)) {
            budget--;
            change (t);
            if (vt_chance (1, 4)) {
                hev_task_yield (HEV_TASK_YIELD);
                yielded = true;
            }
        }
        if (ended)
            break;
        if (yielded) /* readiness may have been reported meanwhile */
            use_all (t);
        t->waiting = true;
        t->cause = false;
        /* readiness present now will be reported */
        for (F *f : fs)
            if (f->owner == t->id && !f->closed) {
                struct pollfd p = { f->fd, (short)f->ev, 0 };
                if (poll (&p, 1, 0))
                    t->cause = true;
            }
        uint64_t at = vos_now ();
        hev_task_yield (HEV_TASK_WAITIO);
        t->waiting = false;
        t->wakes++;
        VT_CHECK (t->cause || ended || vos_now () == at,
                  "spurious: task %d was woken although nothing it registered "
                  "changed", t->id);
        vt_log ("task %d woken", t->id);
        vt_sig (0x600 + t->id);
    }
    for (F *f : fs)
        if (f->owner == t->id && !f->closed) {
            VT_CHECK (hev_task_del_fd (t->h, f->fd) == 0,
                      "result: removal failed");
            f->owner = -1;
        }
    t->done = true;
}

static void
make (F *f, int kind)
{
    int v[2];

    f->kind = kind;
    f->peer = -1;
    switch (kind) {
    case EVT:
        f->fd = eventfd (vt_u (2), EFD_NONBLOCK);
        break;
    case PRD:
    case PWR:
        if (vt_pipe (v))
            vt_fail ("harness: pipe");
        fcntl (v[0], F_SETPIPE_SZ, 4096);
        f->fd = v[kind == PWR];
        f->peer = v[kind != PWR];
        break;
    case SOCK:
    case DGRAM: {
        int sz = 4096;
        if (socketpair (AF_UNIX,
                        (kind == SOCK ? SOCK_STREAM : SOCK_DGRAM) |
                            SOCK_NONBLOCK,
                        0, v))
            vt_fail ("harness: socketpair");
        setsockopt (v[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
        f->fd = v[0];
        f->peer = v[1];
        break;
    }
    case FILEFD:
        f->fd = open ("/proc/self/stat", O_RDONLY);
        break;
    }
    if (f->fd < 0)
        vt_fail ("harness: descriptor");
    vt_sig (kind);
}

extern "C" int
prop_setup (void)
{
    struct rlimit r;

    getrlimit (RLIMIT_NOFILE, &r);
    r.rlim_cur = r.rlim_max < 3900 ? r.rlim_max : 3900;
    setrlimit (RLIMIT_NOFILE, &r);
    return 0;
}

void
prop_case (void)
{
    struct rlimit rl;
    uint64_t at;
    int nt, nf, ne, wakes = 0;

    ts_clock ();
    ts_env_clear ();
    last_ev = vos_now ();
    ended = 0;
    changes = readies = checks = busies = 0;
    fs.clear ();
    ts.clear ();
    ts_init ();
    big = vt_chance (1, 400);
    nt = vt_range (1, 4);
    nf = vt_range (1, 12);
    getrlimit (RLIMIT_NOFILE, &rl);
    if (big) {
        nf = vt_pick ({ 200, 1023, 1024, 1025, 1500, 2100 });
        if (nf + 100 > (int)rl.rlim_cur)
            nf = (int)rl.rlim_cur - 100;
        vt_label ("cases with hundreds of descriptors");
    }
    for (int i = 0; i < nf; i++) {
        F *f = new F;
        make (f, big ? (vt_u (40) ? EVT : (int)vt_u (6)) : (int)vt_u (6));
        fs.push_back (f);
    }
    for (int i = 0; i < nt; i++) {
        T *t = new T;
        t->id = i;
        t->h = ts_new ();
        hev_task_set_priority (t->h, vt_bool () ? 8 : vt_range (0, 15));
        ts.push_back (t);
    }
    if (big) {
        /* registered up front, some of them already ready */
        for (F *f : fs)
            if (f->kind != FILEFD) {
                T *t = ts[vt_u (nt)];
                VT_CHECK (hev_task_add_fd (t->h, f->fd, POLLIN) == 0,
                          "result: registration failed");
                f->owner = t->id;
                f->ev = POLLIN;
            }
    }
    for (T *t : ts)
        ts_start (t->h, [t] { body (t); });
    ne = vt_range (1, 24);
    at = vos_now ();
    for (int i = 0; i < ne; i++) {
        at += MS * vt_range (0, 3);
        ts_at (at, env_act);
    }
    at += MS;
    ts_at (at, [] { idle_check (); });
    at += MS;
    bool busy = !big && vt_chance (1, 6);
    ts_go (
        [at, busy] {
            if (busy)
                busy_body (at);
            while (vos_now () < at)
                hev_task_sleep ((at - vos_now ()) / MS + 1);
            ended = 1;
            for (T *t : ts)
                if (!t->done)
                    hev_task_wakeup (t->h);
        },
        8);
    ts_run ();
    for (T *t : ts) {
        VT_CHECK (t->done, "lost: task %d did not finish", t->id);
        wakes += t->wakes;
    }
    ts_fini ();
    if (wakes >= 2 && readies && (changes || big))
        vt_nontrivial ();
    vt_label ("registration changes", changes);
    vt_label ("outside events on registered descriptors", readies);
    vt_label ("wake-ups", wakes);
    vt_label ("idle checks", checks);
    vt_label ("events made by a busy task", busies);
    vt_sample ("tasks=%d descriptors=%d changes=%d outside events=%d wakeups=%d",
               nt, nf, changes, readies, wakes);
    for (F *f : fs) {
        if (!f->closed)
            close (f->fd);
        if (f->peer >= 0)
            close (f->peer);
        delete f;
    }
    for (T *t : ts)
        delete t;
}
