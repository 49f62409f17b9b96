// VARIANTS default:240000:1200000 heap:40000:200000 asan:10000:60000
#include "link.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <set>

const char *prop_id = "C17";
const char *prop_rule =
    "A case is 1-2 listening sockets (local or TCP on the loopback) served by "
    "accepting tasks, with connections made by tasks and by the outside world at "
    "generated times, wrong destinations, spurious wake-ups and injected errors. "
    "Non-trivial: at least two connections accepted or one failed connect. "
    "Distinct by the executed trace.";

struct Lst {
    int fd, domain, type;
    struct sockaddr_storage ss;
    socklen_t sl;
    int backlog;
    std::vector<int> waiting; /* ids of connections not yet accepted */
    bool accepting = false, done = false;
    int want;
};
struct Cli {
    int fd, id;
    struct sockaddr_storage name;
    socklen_t nl;
    bool accepted = false, sure = false;
};
static std::vector<Lst *> lst;
static std::vector<Cli *> cli;
static std::vector<int> srv;
static int serial, accepted, refused, suspends, slow, spurious, injected, again;
static uint64_t steps;
static int running; /* connecting tasks */
static struct {
    int err, again;
} injs[1024];
static HevTask *connecting[8];

static int
fault (int call, int fd)
{
    if (fd < 0 || fd >= 1024 || (call != VC_accept && call != VC_connect))
        return 0;
    if (injs[fd].again && call == VC_accept) {
        injs[fd].again--;
        vos_rearm (fd);
        return EAGAIN;
    }
    int e = injs[fd].err;
    injs[fd].err = 0;
    injected += e != 0;
    return e;
}

static void
remember (Cli *c)
{
    c->nl = sizeof (c->name);
    memset (&c->name, 0, sizeof (c->name));
    getsockname (c->fd, (struct sockaddr *)&c->name, &c->nl);
}

static int
new_client (Lst *l, bool block)
{
    int fd = socket (l->domain, l->type | (block ? 0 : SOCK_NONBLOCK), 0);
    if (fd < 0)
        vt_fail ("harness: socket");
    if (l->domain == AF_UNIX && vt_bool ()) {
        struct sockaddr_un a;
        memset (&a, 0, sizeof (a));
        a.sun_family = AF_UNIX;
        int k = snprintf (a.sun_path + 1, 80, "c17.%d.%d.%.*s", getpid (),
                          serial++, (int)vt_u (40),
                          "0123456789012345678901234567890123456789");
        if (bind (fd, (struct sockaddr *)&a,
                  offsetof (struct sockaddr_un, sun_path) + 1 + k))
            vt_fail ("harness: bind");
    }
    return fd;
}

/* With TCP the other side may see the connection before connect returns. */
static Cli *
expect (Lst *l, int fd)
{
    Cli *c = new Cli;

    c->fd = fd;
    c->id = cli.size ();
    cli.push_back (c);
    l->waiting.push_back (c->id);
    return c;
}

static void
forget (Lst *l, Cli *c)
{
    for (size_t i = 0; i < l->waiting.size (); i++)
        if (l->waiting[i] == c->id)
            l->waiting.erase (l->waiting.begin () + i);
}

static void
announce (Lst *l, Cli *c)
{
    unsigned char id = c->id;

    remember (c);
    c->sure = true;
    if (l->domain == AF_UNIX && write (c->fd, &id, 1) != 1)
        vt_fail ("connect: cannot use the new connection, errno %d", errno);
    vt_log ("connection %d is there", c->id);
}

static int
sure (const Lst *l)
{
    int n = 0;
    for (int i : l->waiting)
        n += cli[i]->sure;
    return n;
}

/* which connection is it? */
static int
identify (Lst *l, int fd)
{
    unsigned char id = 255;
    struct sockaddr_storage p;
    socklen_t pl = sizeof (p);

    if (l->domain == AF_UNIX) {
        VT_CHECK (read (fd, &id, 1) == 1, "result: the accepted connection is "
                                          "not usable, errno %d", errno);
        return id;
    }
    VT_CHECK (getpeername (fd, (struct sockaddr *)&p, &pl) == 0,
              "result: the accepted connection has no peer");
    /* the same port may be used towards different listeners */
    for (int i : l->waiting) {
        if (!cli[i]->sure)
            remember (cli[i]);
        if (cli[i]->nl == pl && !memcmp (&cli[i]->name, &p, pl))
            return i;
    }
    return 255;
}

/* a connection from outside */
static void
dial (Lst *l)
{
    int fd;

    if ((int)l->waiting.size () >= l->backlog || cli.size () > 100)
        return;
    fd = new_client (l, true);
    if (connect (fd, (struct sockaddr *)&l->ss, l->sl))
        vt_fail ("harness: connect %d", errno);
    announce (l, expect (l, fd));
}

static void
acceptor (Lst *l)
{
    HevTask *t = hev_task_self ();
    int n = 0;

    hev_task_add_fd (t, l->fd, POLLIN);
    while (n++ < l->want) {
        struct sockaddr_storage pa;
        socklen_t pl, size;
        int null = vt_chance (1, 5), fd, e;

        if (vt_chance (1, 5)) {
            hev_task_sleep (vt_range (1, 4));
            continue;
        }
        memset (&pa, 0x3c, sizeof (pa));
        size = pl = vt_chance (3, 4) ? sizeof (pa) : vt_u (40);
        auto &inj = injs[l->fd];
        bool have = sure (l) > 0;
        int err = inj.err = vt_chance (1, 10) && have ? vt_errno () : 0;
        inj.again = vt_chance (1, 10) ? vt_range (1, 2) : 0;
        bool noinj = !inj.again;
        uint64_t st = ++steps;
        l->accepting = true;
        errno = 0;
        vt_log ("accept with %zu waiting", l->waiting.size ());
        fd = hev_task_io_socket_accept (l->fd,
                                        null ? NULL : (struct sockaddr *)&pa,
                                        null ? NULL : &pl, NULL, NULL);
        e = errno;
        l->accepting = false;
        suspends += st != steps;
        if (have && noinj)
            VT_CHECK (st == steps,
                      "blocked: accept waited although a connection was there");
        steps++;
        inj.again = 0;
        vt_log ("accept gives %d errno %d", fd, e);
        if (err) {
            VT_CHECK (fd == -1 && e == err, "result: accept gives %d errno %d, "
                      "the system call failed with %d", fd, e, err);
            inj.err = 0;
            continue;
        }
        VT_CHECK (fd >= 0, "result: accept gives %d errno %d", fd, e);
        VT_CHECK (!l->waiting.empty (), "invented: accepted a connection nobody "
                                        "made");
        unsigned id = identify (l, fd);
        VT_CHECK (fcntl (fd, F_GETFL) & O_NONBLOCK, "result: blocking");
        VT_CHECK (id < cli.size () && !cli[id]->accepted,
                  "twice: connection %d was accepted before", id);
        Cli *c = cli[id];
        c->accepted = true;
        bool known = false;
        for (size_t i = 0; i < l->waiting.size (); i++)
            if (l->waiting[i] == (int)id) {
                l->waiting.erase (l->waiting.begin () + i);
                known = true;
                break;
            }
        VT_CHECK (known, "result: connection %d belongs to another listener",
                  id);
        if (!null) {
            VT_CHECK (pl == c->nl, "address: length %u, expected %u", pl, c->nl);
            VT_CHECK (!memcmp (&pa, &c->name, pl < size ? pl : size),
                      "address: not the address of the peer");
            for (unsigned i = pl < size ? pl : size; i < sizeof (pa); i++)
                VT_CHECK (((unsigned char *)&pa)[i] == 0x3c,
                          "address: written past the given size");
        }
        srv.push_back (fd);
        accepted++;
        vt_sig (id);
    }
    hev_task_del_fd (t, l->fd);
    l->done = true;
    steps++;
}

/* connects that a blocking call would have reported in the same way */
static void
bad_connect (void)
{
    HevTask *t = hev_task_self ();
    struct sockaddr_storage ss;
    socklen_t sl;
    int kind = vt_weight ({ 3, 3, 2, 1, 1, 1, 2 });
    int domain, type = SOCK_STREAM, e[2], r[2], fd[2];
    uint64_t st;

    memset (&ss, 0, sizeof (ss));
    struct sockaddr_un *un = (struct sockaddr_un *)&ss;
    struct sockaddr_in *in = (struct sockaddr_in *)&ss;
    domain = AF_UNIX;
    ss.ss_family = AF_UNIX;
    sl = sizeof (*un);
    switch (kind) {
    case 0: { /* TCP port without a listener */
        int s = socket (AF_INET, SOCK_STREAM, 0);
        domain = AF_INET;
        in->sin_family = AF_INET;
        in->sin_addr.s_addr = htonl (INADDR_LOOPBACK);
        sl = sizeof (*in);
        if (bind (s, (struct sockaddr *)&ss, sl))
            vt_fail ("harness: bind");
        getsockname (s, (struct sockaddr *)&ss, &sl);
        srv.push_back (s); /* keeps the port ours */
        break;
    }
    case 1:
        snprintf (un->sun_path + 1, 60, "none.%d", getpid ());
        break;
    case 2:
        snprintf (un->sun_path, 60, "/nonexistent/%d", getpid ());
        break;
    case 3:
        ss.ss_family = 77;
        break;
    case 4:
        sl = 1;
        break;
    case 5: /* kind of socket does not fit */
        type = SOCK_DGRAM;
        if (lst[0]->domain == AF_UNIX) {
            memcpy (&ss, &lst[0]->ss, sizeof (ss));
            sl = lst[0]->sl;
        }
        break;
    case 6:
        domain = AF_INET;
        in->sin_family = AF_INET;
        in->sin_addr.s_addr = vt_bool () ? htonl (0xe0000001)
                                         : htonl (0xffffffff);
        in->sin_port = htons (9);
        sl = sizeof (*in);
        break;
    }
    for (int i = 0; i < 2; i++)
        fd[i] = socket (domain, type | (i ? 0 : SOCK_NONBLOCK), 0);
    if (fd[0] < 0 || fd[1] < 0)
        vt_fail ("harness: socket");
    hev_task_add_fd (t, fd[0], POLLIN | POLLOUT);
    st = ++steps;
    errno = 0;
    r[0] = hev_task_io_socket_connect (fd[0], (struct sockaddr *)&ss, sl, NULL,
                                       NULL);
    e[0] = errno;
    suspends += st != steps;
    errno = 0;
    r[1] = connect (fd[1], (struct sockaddr *)&ss, sl);
    e[1] = errno;
    vt_log ("connect kind %d gives %d errno %d, blocking %d errno %d", kind,
            r[0], e[0], r[1], e[1]);
    VT_CHECK (r[0] == r[1] && (!r[0] || e[0] == e[1]),
              "result: connect gives %d errno %d, a blocking connect %d errno "
              "%d", r[0], e[0], r[1], e[1]);
    refused++;
    vt_sig (1000 + kind);
    hev_task_del_fd (t, fd[0]);
    close (fd[0]);
    close (fd[1]);
}

static void
connector (int slot, int n)
{
    HevTask *t = hev_task_self ();

    connecting[slot] = t;
    for (int i = 0; i < n; i++) {
        Lst *l = lst[vt_u (lst.size ())];
        if (vt_chance (1, 5)) {
            hev_task_sleep (vt_range (1, 4));
            continue;
        }
        if (vt_chance (1, 4)) {
            bad_connect ();
            continue;
        }
        if (l->done || (int)l->waiting.size () >= l->backlog ||
            cli.size () > 100)
            continue;
        int fd = new_client (l, false);
        int err = vt_chance (1, 10) ? vt_errno () : 0;
        hev_task_add_fd (t, fd, POLLIN | POLLOUT);
        injs[fd].err = err;
        Cli *c = expect (l, fd);
        uint64_t st = ++steps;
        errno = 0;
        int r = hev_task_io_socket_connect (fd, (struct sockaddr *)&l->ss,
                                            l->sl, NULL, NULL);
        int e = errno;
        bool susp = st != steps;
        suspends += susp;
        steps++;
        injs[fd].err = 0;
        vt_log ("connect gives %d errno %d", r, e);
        if (err) {
            VT_CHECK (r == -1 && e == err, "result: connect gives %d errno %d, "
                      "the system call failed with %d", r, e, err);
            hev_task_del_fd (t, fd);
            forget (l, c);
            refused++;
            continue;
        }
        VT_CHECK (r == 0, "result: connect gives %d errno %d", r, e);
        VT_CHECK (!susp || l->domain != AF_UNIX,
                  "blocked: a connect that was done at once waited");
        struct sockaddr_storage p;
        socklen_t pl = sizeof (p);
        VT_CHECK (getpeername (fd, (struct sockaddr *)&p, &pl) == 0,
                  "result: connect reports success, but there is no peer");
        if (vt_chance (1, 4) &&
            connect (fd, (struct sockaddr *)&l->ss, l->sl) == -1 &&
            errno == EISCONN) {
            st = ++steps;
            r = hev_task_io_socket_connect (fd, (struct sockaddr *)&l->ss,
                                            l->sl, NULL, NULL);
            VT_CHECK (r == 0, "result: connect gives %d errno %d on a socket "
                      "whose connection is established", r, errno);
            VT_CHECK (st == steps, "blocked: a connect of an established "
                      "connection waited");
            again++;
        }
        hev_task_del_fd (t, fd);
        announce (l, c);
    }
    connecting[slot] = NULL;
    running--;
    steps++;
}

static uint64_t last_tick;
static int ticks;

static void
tick (void)
{
    bool all = running == 0;

    for (Lst *l : lst) {
        if (vos_now () > last_tick && l->accepting)
            VT_CHECK (sure (l) == 0,
                      "lost: a connection waits, but the accepting task sleeps");
        all = all && l->done;
    }
    if (all)
        return;
    last_tick = vos_now ();
    ticks++;
    for (Lst *l : lst)
        if (!l->done && (l->accepting || vt_chance (1, 3)))
            for (int k = vt_chance (1, 3) ? vt_range (1, 3) : 1; k > 0; k--)
                if (ticks > 30 || vt_chance (2, 3))
                    dial (l);
    ts_at (vos_now () + MS * vt_range (1, 3), tick);
}

/* The destination does not answer at first, so that the connect is pending for
 * about a second of real time, with wake-ups in between. */
static void
slow_case (void)
{
    struct sockaddr_in a;
    socklen_t al = sizeof (a);
    int ls, c[3], st = 0, r = -9, e = 0, n = vt_range (1, 20);
    bool give = vt_bool ();
    HevTask *t;
    struct linger lg = { 1, 0 };

    memset (&a, 0, sizeof (a));
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
    ls = socket (AF_INET, SOCK_STREAM, 0);
    if (ls < 0 || bind (ls, (struct sockaddr *)&a, al) || listen (ls, 0))
        vt_fail ("harness: listen");
    getsockname (ls, (struct sockaddr *)&a, &al);
    /* fill the queue */
    for (int i = 0; i < 2; i++) {
        c[i] = socket (AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
        connect (c[i], (struct sockaddr *)&a, al);
    }
    c[2] = socket (AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
    t = ts_go ([&] {
        hev_task_add_fd (hev_task_self (), c[2], POLLIN | POLLOUT);
        st = 1;
        errno = 0;
        r = hev_task_io_socket_connect (c[2], (struct sockaddr *)&a, al, NULL,
                                        NULL);
        e = errno;
        st = 2;
        hev_task_del_fd (hev_task_self (), c[2]);
    });
    ts_go ([&] {
        hev_task_yield (HEV_TASK_YIELD);
        for (int i = 0; i < n; i++) {
            if (st == 1) {
                struct tcp_info ti;
                socklen_t tl = sizeof (ti);
                getsockopt (c[2], IPPROTO_TCP, TCP_INFO, &ti, &tl);
                if (ti.tcpi_state == TCP_SYN_SENT)
                    slow++;
                hev_task_wakeup (t);
                spurious++;
            } else if (st == 2 && r == 0) {
                struct sockaddr_storage p;
                socklen_t pl = sizeof (p);
                VT_CHECK (getpeername (c[2], (struct sockaddr *)&p, &pl) == 0,
                          "result: connect reports success, but there is no "
                          "peer");
            }
            hev_task_yield (HEV_TASK_YIELD);
        }
        /* now let it through or not */
        if (give) {
            int s;
            while ((s = accept4 (ls, NULL, NULL, SOCK_NONBLOCK)) >= 0) {
                srv.push_back (s);
                if (srv.size () >= 1)
                    break;
            }
        } else {
            close (ls);
            ls = -1;
        }
    });
    vos_grace_ms = 5000;
    ts_run ();
    vt_log ("pending connect gives %d errno %d", r, e);
    if (st != 2)
        vt_fail ("lost: the connecting task did not finish");
    if (give) {
        VT_CHECK (r == 0, "result: pending connect gives %d errno %d", r, e);
        accepted += 2;
    } else {
        VT_CHECK (r == -1 && (e == ECONNREFUSED || e == ECONNRESET),
                  "result: pending connect gives %d errno %d", r, e);
        refused++;
    }
    for (int i = 0; i < 3; i++) {
        setsockopt (c[i], SOL_SOCKET, SO_LINGER, &lg, sizeof (lg));
        close (c[i]);
    }
    if (ls >= 0)
        close (ls);
}

void
prop_case (void)
{
    struct linger lg = { 1, 0 };
    int nl, nc;

    ts_clock ();
    vos_poll_limit = 30000;
    ts_env_clear ();
    for (Lst *l : lst)
        delete l;
    lst.clear ();
    cli.clear ();
    srv.clear ();
    accepted = refused = suspends = slow = spurious = injected = again = ticks = 0;
    steps = 0;
    memset (injs, 0, sizeof (injs));
    last_tick = vos_now ();
    ts_init ();
    if (vt_chance (1, 3000)) {
        slow_case ();
        ts_fini ();
        for (int fd : srv) {
            setsockopt (fd, SOL_SOCKET, SO_LINGER, &lg, sizeof (lg));
            close (fd);
        }
        vt_nontrivial ();
        vt_sig (spurious);
        vt_label ("pending connects", 1);
        vt_label ("wake-ups while pending", slow);
        return;
    }
    nl = vt_range (1, 2);
    nc = vt_u (4);
    running = nc;
    for (int i = 0; i < nl; i++) {
        Lst *l = new Lst;
        memset (&l->ss, 0, sizeof (l->ss));
        l->domain = vt_chance (1, 5) ? AF_INET : AF_UNIX;
        l->type = l->domain == AF_UNIX && vt_chance (1, 4) ? SOCK_SEQPACKET
                                                           : SOCK_STREAM;
        l->backlog = vt_range (1, 6);
        l->want = vt_range (1, 10);
        if (l->domain == AF_INET) {
            struct sockaddr_in *a = (struct sockaddr_in *)&l->ss;
            a->sin_family = AF_INET;
            a->sin_addr.s_addr = htonl (INADDR_LOOPBACK);
            l->sl = sizeof (*a);
            vos_grace_ms = 200;
        } else {
            l->ss.ss_family = AF_UNIX;
            l->sl = sizeof (sa_family_t);
        }
        l->fd = socket (l->domain, l->type | SOCK_NONBLOCK, 0);
        if (l->fd < 0 || bind (l->fd, (struct sockaddr *)&l->ss, l->sl) ||
            listen (l->fd, l->backlog))
            vt_fail ("harness: listen %d", errno);
        l->sl = sizeof (l->ss);
        getsockname (l->fd, (struct sockaddr *)&l->ss, &l->sl);
        lst.push_back (l);
        vt_sig (l->domain * 10 + l->type);
    }
    vos_fault = fault;
    for (Lst *l : lst)
        ts_go ([l] { acceptor (l); });
    for (int i = 0; i < nc; i++) {
        int n = vt_range (1, 6);
        ts_go ([i, n] { connector (i, n); });
    }
    ts_at (vos_now () + MS, tick);
    ts_run ();
    for (Lst *l : lst)
        VT_CHECK (l->done, "lost: an accepting task did not finish");
    VT_CHECK (running == 0, "lost: a connecting task did not finish");
    vos_fault = NULL;
    ts_fini ();
    for (Cli *c : cli) {
        setsockopt (c->fd, SOL_SOCKET, SO_LINGER, &lg, sizeof (lg));
        close (c->fd);
        delete c;
    }
    cli.clear ();
    for (int fd : srv) {
        setsockopt (fd, SOL_SOCKET, SO_LINGER, &lg, sizeof (lg));
        close (fd);
    }
    for (Lst *l : lst)
        close (l->fd);
    if (accepted >= 2 || refused)
        vt_nontrivial ();
    vt_label ("accepted", accepted);
    vt_label ("failed connects", refused);
    vt_label ("connects of established connections", again);
    vt_label ("suspensions", suspends);
    vt_label ("injected errors", injected);
    vt_sample ("listeners=%d connecting tasks=%d accepted=%d failed=%d", nl, nc,
               accepted, refused);
}
