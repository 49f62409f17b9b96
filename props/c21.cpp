// VARIANTS default:800000:3000000 heap:120000:500000 asan:40000:200000
#include "cio.hpp"
#include "link.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/ioctl.h>
#include <sys/mman.h>

const char *prop_id = "C21";
const char *prop_rule =
    "A case is 2-4 datagram sockets of one family (local, IPv4, IPv6), connected "
    "or not, each wrapped in a chain of 0-3 layers and used by its own task for "
    "plain and vectored datagram reads and writes of generated sizes, with foreign "
    "datagrams, would-blocks and errors in between, or a chain without datagram "
    "support. Non-trivial: at least two datagrams read. Distinct by the executed "
    "trace.";

struct D {
    uint64_t seed;
    size_t n;
    int from; /* node, -1: unnamed */
};
struct N {
    int fd, id, conn = -1;
    bool raw = false; /* used by the outside world, not by a task */
    union {
        struct sockaddr sa;
        struct sockaddr_un un;
        struct sockaddr_in in;
        struct sockaddr_in6 in6;
    } a;
    socklen_t al = 0;
    std::deque<D> q;
    Cio *c = NULL;
    bool reading = false, done = false;
    int len;
};
static std::vector<N *> ns;
static int family, reads, sent, waits, injected, fin, layers;
static uint64_t seq, last_tick;
static int ticks;

struct Inj {
    int on, err, again;
    uint64_t polls; /* when it last said that it is not ready, plus one */
};
static Inj injs[1024];
static int failed; /* an error was injected into the current call */

static int
fault (int call, int fd)
{
    if (call < VC_read || call > VC_sendmsg || fd < 0 || fd >= 1024 ||
        !injs[fd].on)
        return 0;
    if (injs[fd].polls)
        VT_CHECK (vos_polls >= injs[fd].polls,
                  "spin: tried again without waiting");
    injs[fd].polls = 0;
    if (injs[fd].again) {
        injs[fd].again--;
        injs[fd].polls = vos_polls + 1;
        injected++;
        vos_rearm (fd);
        return EAGAIN;
    }
    if (injs[fd].err) {
        int e = injs[fd].err;
        injs[fd].err = 0;
        injected++;
        failed = fd;
        return e;
    }
    return 0;
}

/* datagrams in the order in which they are really sent */
struct Pend {
    D d;
    int to;
    bool on;
};
static Pend pend[1024];

static void
after (int call, int fd, long ret, int err)
{
    (void)err;
    if (ret < 0 || fd < 0 || fd >= 1024 || !pend[fd].on)
        return;
    if (call != VC_send && call != VC_sendto && call != VC_sendmsg &&
        call != VC_write && call != VC_writev)
        return;
    pend[fd].on = false;
    ns[pend[fd].to]->q.push_back (pend[fd].d);
}

static void
arm (int fd)
{
    injs[fd].again = vt_chance (1, 12) ? vt_range (1, 3) : 0;
    injs[fd].err = vt_chance (1, 30) ? vt_errno () : 0;
}

/* room of exactly n bytes, with nothing behind that could be touched */
static void *
room (size_t n)
{
    static char *page;
    size_t ps = sysconf (_SC_PAGESIZE);

    if (!page) {
        page = (char *)mmap (NULL, 2 * ps, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (page == MAP_FAILED || mprotect (page + ps, ps, PROT_NONE))
            vt_fail ("harness: mmap");
    }
    return page + ps - n;
}

static size_t
addrsize (void)
{
    return family == AF_UNIX   ? sizeof (struct sockaddr_un)
           : family == AF_INET ? sizeof (struct sockaddr_in)
                               : sizeof (struct sockaddr_in6);
}

static unsigned char
byte (const D &d, size_t i)
{
    return (unsigned char)(vt_hash (d.seed, i >> 3) >> (8 * (i & 7)));
}

static size_t
gen_n (void)
{
    switch (vt_weight ({ 5, 3, 2, 1 })) {
    case 0:
        return vt_range (1, 64);
    case 1:
        return vt_range (64, 3000);
    case 2:
        return vt_pick ({ 1, 2, 16 });
    }
    return 0;
}

static int
target (N *n, bool *named)
{
    int to;

    if (n->conn >= 0 && (family != AF_UNIX || vt_chance (2, 3))) {
        *named = false;
        to = n->conn;
    } else {
        *named = true;
        to = vt_u (ns.size ());
    }
    /* a connected receiver takes datagrams from its peer only */
    if (ns[to]->conn >= 0 && ns[to]->conn != n->id)
        return -1;
    if (family != AF_UNIX && n->conn >= 0 && *named)
        return -1;
    if (ns[to]->q.size () >= 6 || ns[to]->done || !ns[to]->al)
        return -1;
    return to;
}

static void
do_write (N *n)
{
    bool named, vec = vt_bool ();
    int to = target (n, &named);
    size_t k = gen_n ();
    ssize_t r;

    if (to < 0)
        return;
    /* one large one does not fill the receiver */
    if (ns[to]->q.empty () && vt_chance (1, 40))
        k = vt_range (3000, 20000);
    D d = { ++seq, k, family == AF_UNIX && !n->al ? -1 : n->id };
    Vec v (k, vec ? 5 : 1);
    for (size_t i = 0; i < k; i++)
        v.b[i] = byte (d, i);
    std::vector<unsigned char> keep = v.b;
    N *t = ns[to];
    /* the call may wait, and others use the same room meanwhile */
    bool tight = vt_chance (1, 3);
    decltype (t->a) addr = t->a;
    void *ap = &addr;
    if (tight) {
        ap = room (addrsize ());
        memcpy (ap, &addr, addrsize ());
    }
    arm (n->fd);
    if (tight)
        injs[n->fd].again = 0;
    failed = -1;
    pend[n->fd] = { d, to, true };
    if (vec)
        r = hev_task_cio_writev_dgram (n->c, v.v.data (), v.v.size (),
                                       named ? ap : NULL, NULL, NULL);
    else
        r = hev_task_cio_write_dgram (n->c, v.b.data (), k,
                                      named ? ap : NULL, NULL, NULL);
    bool still = pend[n->fd].on;
    pend[n->fd].on = false;
    vt_log ("node %d writes %zu%s to %d%s: %zd", n->id, k, vec ? " vectored" : "",
            to, named ? " by name" : "", r);
    vt_sig (r);
    VT_CHECK (v.b == keep && !memcmp (&addr, &t->a, sizeof (addr)) &&
                  v.v.size () == v.copy.size () &&
                  !memcmp (v.v.data (), v.copy.data (),
                           v.v.size () * sizeof (struct iovec)),
              "vector: the caller's data was modified");
    if (r < 0) {
        VT_CHECK (r == -1 && failed == n->fd, "result: write failed with %zd, "
                  "errno %d", r, errno);
        return;
    }
    VT_CHECK (!still, "lost: a datagram was reported as written but not sent");
    VT_CHECK (r == (ssize_t)k, "result: wrote %zd of a datagram of %zu", r, k);
    sent++;
}

static void
do_read (N *n, bool must)
{
    bool vec = vt_bool (), want = vt_chance (2, 3);
    size_t k = vt_chance (1, 3)    ? vt_range (0, 20)
               : vt_chance (1, 20) ? vt_range (3200, 25000)
                                   : vt_range (0, 3200);
    uint64_t t = vos_now ();
    ssize_t r;
    union {
        unsigned char b[200];
        struct sockaddr_un un;
        struct sockaddr_in in;
        struct sockaddr_in6 in6;
    } a;

    /* do not wait for what will never come */
    if (n->q.empty () && !must)
        return;
    Vec v (k, vec ? 5 : 1);
    memset (&a, 0, sizeof (a));
    memset (a.b + sizeof (n->a), 0x3c, sizeof (a) - sizeof (n->a));
    arm (n->fd);
    failed = -1;
    bool had = !n->q.empty (), tight = had && vt_chance (1, 3);
    void *ap = &a;
    if (tight) {
        injs[n->fd].again = 0;
        ap = room (addrsize ());
        memset (ap, 0, addrsize ());
    }
    int inj0 = injected;
    n->reading = true;
    if (vec)
        r = hev_task_cio_readv_dgram (n->c, v.v.data (), v.v.size (),
                                      want ? ap : NULL, NULL, NULL);
    else
        r = hev_task_cio_read_dgram (n->c, v.b.data (), k, want ? ap : NULL,
                                     NULL, NULL);
    n->reading = false;
    if (tight)
        memcpy (&a, ap, addrsize ());
    waits += vos_now () > t;
    vt_log ("node %d reads into %zu%s: %zd", n->id, k, vec ? " vectored" : "",
            r);
    vt_sig (r);
    if (r < 0) {
        VT_CHECK (r == -1 && failed == n->fd,
                  "result: read failed with %zd, errno %d", r, errno);
        v.intact (0);
        return;
    }
    VT_CHECK (!n->q.empty (), "invented: received a datagram nobody sent");
    VT_CHECK (!had || vos_now () == t || injected > inj0,
              "stall: waited although a datagram was there");
    D d = n->q.front ();
    n->q.pop_front ();
    VT_CHECK (r == (ssize_t)(d.n < k ? d.n : k),
              "boundary: received %zd of a datagram of %zu into %zu", r, d.n, k);
    v.intact (r);
    for (ssize_t i = 0; i < r; i++)
        VT_CHECK (v.b[i] == byte (d, i), "data: wrong byte %zd of a datagram",
                  i);
    reads++;
    if (!want)
        return;
    for (size_t i = sizeof (n->a); i < sizeof (a); i++)
        VT_CHECK (a.b[i] == 0x3c, "overrun: the address was written past its "
                                  "size");
    if (d.from < 0) {
        VT_CHECK (a.un.sun_path[0] == 0, "address: an unnamed sender has a name");
        return;
    }
    N *f = ns[d.from];
    bool same = family == AF_UNIX  ? a.un.sun_family == AF_UNIX &&
                                        !strcmp (a.un.sun_path, f->a.un.sun_path)
                : family == AF_INET ? a.in.sin_family == AF_INET &&
                                        a.in.sin_port == f->a.in.sin_port &&
                                        a.in.sin_addr.s_addr ==
                                            f->a.in.sin_addr.s_addr
                                    : a.in6.sin6_family == AF_INET6 &&
                                        a.in6.sin6_port == f->a.in6.sin6_port &&
                                        !memcmp (&a.in6.sin6_addr,
                                                 &f->a.in6.sin6_addr, 16);
    VT_CHECK (same, "address: wrong sender address");
}

/* the outside world sends from a socket of its own */
static bool
foreign (N *n)
{
    bool named;
    static unsigned char b[20000];

    for (int tries = 0; tries < 3; tries++) {
        int to = target (n, &named);
        size_t k = gen_n ();
        if (to < 0 || ns[to]->raw)
            continue;
        if (ns[to]->q.empty () && vt_chance (1, 40))
            k = vt_range (3000, 20000);
        D d = { ++seq, k, family == AF_UNIX && !n->al ? -1 : n->id };
        for (size_t i = 0; i < k; i++)
            b[i] = byte (d, i);
        ssize_t r = named ? sendto (n->fd, b, k, 0, &ns[to]->a.sa, ns[to]->al)
                          : send (n->fd, b, k, 0);
        vt_log ("outside %d sends %zu to %d: %zd", n->id, k, to, r);
        if (r == (ssize_t)k)
            ns[to]->q.push_back (d);
        return true;
    }
    return false;
}

static void
tick (void)
{
    bool all = true;

    for (N *n : ns) {
        if (n->raw)
            continue;
        all = all && n->done;
        if (n->reading && vos_now () > last_tick)
            VT_CHECK (n->q.empty (), "stall: a read waits although a datagram "
                                     "is there");
    }
    if (all)
        return;
    last_tick = vos_now ();
    ticks++;
    for (N *n : ns) {
        if (n->raw && vt_bool ())
            foreign (n);
        /* release whoever still waits */
        if (n->reading && ticks % 8 == 0) {
            N *r = ns.back (); /* raw and never connected */
            if (n->conn >= 0)
                r = ns[n->conn];
            unsigned char c;
            D d = { ++seq, 1, family == AF_UNIX && !r->al ? -1 : r->id };
            c = byte (d, 0);
            ssize_t x = r->conn >= 0 ? send (r->fd, &c, 1, 0)
                                     : sendto (r->fd, &c, 1, 0, &n->a.sa, n->al);
            if (x == 1)
                n->q.push_back (d);
        }
    }
    ts_at (vos_now () + 1000, tick);
}

static void
body (N *n)
{
    HevTask *t = hev_task_self ();

    if (hev_task_add_fd (t, n->fd, POLLIN | POLLOUT) < 0)
        vt_fail ("create: registration failed");
    for (int i = 0; i < n->len; i++) {
        switch (vt_weight ({ 4, 4, 1, 1 })) {
        case 0:
            do_write (n);
            break;
        case 1:
            do_read (n, false);
            break;
        case 2:
            do_read (n, true);
            break;
        case 3:
            hev_task_sleep (1);
            break;
        }
    }
    while (!n->q.empty ())
        do_read (n, false);
    hev_task_del_fd (t, n->fd);
    n->done = true;
}

static Cio *
wrap (Cio *c)
{
    int n = vt_weight ({ 2, 3, 2, 1 });

    for (int i = 0; i < n; i++) {
        Cio *l = vt_chance (1, 4)
                     ? sh_layer_new (&fin)
                     : hev_task_cio_buffer_new (vt_pick ({ 0, 1, 10, 4000 }),
                                                vt_pick ({ 0, 1, 10, 4000 }));
        if (!l)
            vt_fail ("create: layer creation failed");
        c = hev_task_cio_push (l, c);
        layers++;
    }
    return c;
}

/* a chain that cannot carry datagrams */
static void
unsupported (void)
{
    int v[2];
    bool done = false;
    Cio *c;

    if (vt_pipe (v))
        vt_fail ("harness: pipe");
    if (vt_bool ())
        c = hev_task_cio_fd_new (v[0], v[1]);
    else {
        c = hev_task_cio_buffer_new (vt_pick ({ 0, 5 }), vt_pick ({ 0, 5 }));
        close (v[0]);
        close (v[1]);
    }
    c = wrap (c);
    ts_go ([&] {
        char b[100] = { 0 };
        struct iovec iv = { b, (size_t)vt_range (0, 100) };
        struct sockaddr_un a = {};
        int n = vt_range (1, 4);
        for (int i = 0; i < n; i++) {
            ssize_t r;
            switch (vt_u (4)) {
            case 0:
                r = hev_task_cio_read_dgram (c, b, iv.iov_len, &a, NULL, NULL);
                break;
            case 1:
                r = hev_task_cio_readv_dgram (c, &iv, 1, &a, NULL, NULL);
                break;
            case 2:
                r = hev_task_cio_write_dgram (c, b, iv.iov_len, &a, NULL, NULL);
                break;
            default:
                r = hev_task_cio_writev_dgram (c, &iv, 1, &a, NULL, NULL);
                break;
            }
            VT_CHECK (r == -1, "unsupported: a datagram call gave %zd", r);
        }
        done = true;
    });
    ts_run ();
    VT_CHECK (done, "unsupported: a datagram call never returned");
    sh_unref (c);
}

static const char *
path (int id)
{
    static char b[200];
    static const char *dir = getenv ("VT_SCRATCH");

    snprintf (b, sizeof (b), "%s/c21.%d.%d", dir, getpid (), id);
    return b;
}

static bool
make (N *n)
{
    memset (&n->a, 0, sizeof (n->a));
    n->fd = socket (family, SOCK_DGRAM | SOCK_NONBLOCK, 0);
    if (n->fd < 0)
        return false;
    n->a.sa.sa_family = family;
    switch (family) {
    case AF_UNIX:
        strcpy (n->a.un.sun_path, path (n->id));
        unlink (n->a.un.sun_path);
        n->al = sizeof (n->a.un);
        break;
    case AF_INET:
        n->a.in.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
        n->al = sizeof (n->a.in);
        break;
    case AF_INET6:
        n->a.in6.sin6_addr = in6addr_loopback;
        n->al = sizeof (n->a.in6);
        break;
    }
    if (n->raw && family == AF_UNIX && vt_bool ()) {
        n->al = 0; /* unnamed */
        return true;
    }
    if (bind (n->fd, &n->a.sa, n->al))
        return false;
    if (family != AF_UNIX && getsockname (n->fd, &n->a.sa, &n->al))
        return false;
    return true;
}

static bool
have6 (void)
{
    static int have = -1;

    if (have < 0) {
        struct sockaddr_in6 a = {};
        int fd = socket (AF_INET6, SOCK_DGRAM, 0);
        a.sin6_family = AF_INET6;
        a.sin6_addr = in6addr_loopback;
        have = fd >= 0 && !bind (fd, (struct sockaddr *)&a, sizeof (a));
        if (fd >= 0)
            close (fd);
    }
    return have;
}

void
prop_case (void)
{
    int n;

    ts_clock ();
    vos_poll_limit = 30000;
    ts_env_clear ();
    memset (injs, 0, sizeof (injs));
    ns.clear ();
    reads = sent = waits = injected = fin = layers = ticks = 0;
    seq = 0;
    last_tick = vos_now ();
    ts_init ();
    if (vt_chance (1, 12)) {
        unsupported ();
        ts_fini ();
        vt_label ("chains without datagram support", 1);
        return;
    }
    memset (pend, 0, sizeof (pend));
    vos_fault = fault;
    vos_after = after;
    family = vt_pick ({ AF_UNIX, AF_UNIX, AF_INET, AF_INET6 });
    if (family == AF_INET6 && !have6 ())
        family = AF_INET;
    if (family != AF_UNIX)
        vos_grace_ms = 200;
    n = vt_range (1, 3);
    for (int i = 0; i <= n; i++) {
        N *x = new N;
        x->id = i;
        x->raw = i == n || (i && vt_chance (1, 5));
        x->len = vt_range (1, 14);
        ns.push_back (x);
        if (!make (x)) {
            vt_fail ("harness: socket");
        }
    }
    /* some are connected to each other */
    if (n >= 2 && vt_bool ()) {
        for (int i = 0; i < 2; i++) {
            if (!ns[1 - i]->al || connect (ns[i]->fd, &ns[1 - i]->a.sa,
                                           ns[1 - i]->al))
                break;
            ns[i]->conn = 1 - i;
        }
    }
    for (N *x : ns)
        if (!x->raw) {
            Cio *c = hev_task_cio_socket_new (family, x->fd);
            if (!c)
                vt_fail ("create: endpoint creation failed");
            x->c = wrap (c);
            injs[x->fd].on = 1;
        }
    for (N *x : ns)
        if (!x->raw)
            ts_go ([x] { body (x); });
    ts_at (vos_now () + 1000, tick);
    ts_run ();
    for (N *x : ns) {
        if (!x->raw) {
            VT_CHECK (x->done, "stall: a task did not finish");
            sh_unref (x->c);
        } else {
            close (x->fd);
        }
        if (family == AF_UNIX)
            unlink (x->a.un.sun_path);
    }
    ts_fini ();
    for (N *x : ns)
        delete x;
    vt_sig (family);
    if (reads >= 2)
        vt_nontrivial ();
    vt_label ("datagrams read", reads);
    vt_label ("datagrams written", sent);
    vt_label ("reads that waited", waits);
    vt_label (family == AF_UNIX   ? "local cases"
              : family == AF_INET ? "IPv4 cases"
                                  : "IPv6 cases",
              1);
    vt_sample ("family=%d nodes=%d reads=%d writes=%d layers=%d", family,
               n + 1, reads, sent, layers);
}
