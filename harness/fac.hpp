/* Small self-checking uses of every facility of the library, to be run inside
 * a task of any thread.  A use returns a value that depends only on its
 * parameters, or -1 when a creating call reported failure; then it has undone
 * what it had done.  Wrong results fail the case. */
#ifndef FAC_HPP
#define FAC_HPP

#include "cio.hpp"
#include <arpa/inet.h>
#include <fcntl.h>
#include <hev-circular-buffer.h>
#include <hev-task-call.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

struct Fac {
    uint64_t rng;
    int id; /* distinct for uses that run at the same time */
    uint64_t
    u (uint64_t n)
    {
        rng = rng * 6364136223846793005ull + 1442695040888963407ull;
        return (rng >> 33) % n;
    }
    uint64_t
    range (uint64_t a, uint64_t b)
    {
        return a + u (b - a + 1);
    }
};

/* resolver stand-in: the answer follows from the question */
static int
fac_gai (const char *node, const char *service, const struct addrinfo *hints,
         struct addrinfo **res)
{
    struct {
        struct addrinfo ai;
        struct sockaddr_in sa;
    } *b;
    uint32_t h = 2166136261u;

    for (const char *p = node; p && *p; p++)
        h = (h ^ (unsigned char)*p) * 16777619u;
    for (const char *p = service; p && *p; p++)
        h = (h ^ (unsigned char)*p) * 16777619u;
    if (node && node[0] == 'e') {
        errno = EPERM;
        return EAI_NONAME;
    }
    b = (decltype (b))calloc (1, sizeof (*b));
    b->ai.ai_family = AF_INET;
    b->ai.ai_socktype = hints ? hints->ai_socktype : 0;
    b->ai.ai_addrlen = sizeof (b->sa);
    b->ai.ai_addr = (struct sockaddr *)&b->sa;
    b->sa.sin_family = AF_INET;
    b->sa.sin_addr.s_addr = h;
    b->sa.sin_port = (uint16_t)(h >> 7);
    *res = &b->ai;
    return 0;
}

static int
fac_gni (const struct sockaddr *sa, unsigned len, char *node, unsigned nl,
         char *service, unsigned sl, int flags)
{
    const struct sockaddr_in *in = (const struct sockaddr_in *)sa;

    if (len != sizeof (*in))
        return EAI_FAMILY;
    if (node)
        snprintf (node, nl, "n%x", in->sin_addr.s_addr);
    if (service)
        snprintf (service, sl, "s%x", in->sin_port);
    return flags & 0x4000 ? EAI_AGAIN : 0;
}

/* how many of the acquisitions of this use were made to fail */
static int fac_fired;

#define FAC_BAD(...) vt_fail ("use: " __VA_ARGS__)

struct FacSub {
    std::function<void ()> f;
    HevTask *t;
};

static void
fac_sub_entry (void *d)
{
    FacSub *s = (FacSub *)d;
    s->f ();
}

/* false: no task */
static bool
fac_go (FacSub *s, std::function<void ()> f, int stack = TS_STACK)
{
    s->f = std::move (f);
    s->t = hev_task_new (stack);
    if (!s->t)
        return false;
    hev_task_ref (s->t);
    hev_task_run (s->t, fac_sub_entry, s);
    return true;
}

static void
fac_join (FacSub *s)
{
    if (!s->t)
        return;
    if (hev_task_get_state (s->t) != HEV_TASK_STOPPED)
        hev_task_join (s->t);
    if (hev_task_get_state (s->t) != HEV_TASK_STOPPED)
        FAC_BAD ("join: the joined task has not ended");
    hev_task_unref (s->t);
    s->t = NULL;
}

static unsigned char
fac_pat (uint64_t tag, size_t i)
{
    return (unsigned char)((tag * 2654435761ull >> 8) + i * 7 + (i >> 8));
}

static long
fac_tasks (Fac &f)
{
    FacSub s[4];
    int n = f.range (1, 4), k, made;
    long sum = 0;
    bool bad = false;

    for (made = 0; made < n; made++) {
        int laps = f.range (0, 3), v = f.range (1, 1000);
        if (!fac_go (&s[made], [=, &sum] {
                for (int l = 0; l < laps; l++)
                    hev_task_yield (HEV_TASK_YIELD);
                sum += v;
            }, f.u (2) ? TS_STACK : 64 * 1024)) {
            bad = true;
            break;
        }
    }
    for (k = 0; k < made; k++)
        fac_join (&s[k]);
    if (bad)
        return -1;
    /* one that is never started */
    HevTask *t = hev_task_new (-1);
    if (!t)
        return -1;
    hev_task_unref (t);
    return sum;
}

static long
fac_sleep (Fac &f)
{
    int ms = f.range (1, 2);

    if (hev_task_sleep (ms) != 0)
        FAC_BAD ("sleep: woken early");
    hev_task_usleep (f.range (1, 900));
    return ms;
}

static long
fac_cond (Fac &f)
{
    HevTaskMutex m;
    HevTaskCond c;
    FacSub s;
    int turns = f.range (1, 4), turn = 0;

    hev_task_mutex_init (&m);
    hev_task_cond_init (&c);
    if (!fac_go (&s, [&, turns] {
            for (int i = 0; i < turns; i++) {
                hev_task_mutex_lock (&m);
                while (turn % 2 == 0)
                    hev_task_cond_wait (&c, &m);
                turn++;
                hev_task_cond_signal (&c);
                hev_task_mutex_unlock (&m);
            }
        }))
        return -1;
    for (int i = 0; i < turns; i++) {
        hev_task_mutex_lock (&m);
        while (turn % 2 == 1)
            hev_task_cond_wait (&c, &m);
        turn++;
        hev_task_cond_broadcast (&c);
        hev_task_mutex_unlock (&m);
    }
    fac_join (&s);
    hev_task_mutex_lock (&m);
    if (hev_task_cond_timedwait (&c, &m, 1) == 0)
        FAC_BAD ("cond: signalled by nobody");
    hev_task_mutex_unlock (&m);
    if (turn != turns * 2)
        FAC_BAD ("cond: %d turns", turn);
    return turn;
}

static long
fac_channel (Fac &f)
{
    HevTaskChannel *a, *b;
    FacSub s;
    int n = f.range (1, 12), size = f.range (1, 200), bufs = f.range (0, 5), r;
    uint64_t tag = f.u (1000);
    uint64_t h = 0;

    if (f.u (3) == 0) {
        r = hev_task_channel_new (&a, &b);
        if (size > 8)
            size = 8;
    } else {
        r = hev_task_channel_new_with_buffers (&a, &b, size, bufs + 1);
    }
    if (r < 0)
        return -1;
    if (!fac_go (&s, [=] {
            std::vector<unsigned char> v (size);
            for (int i = 0; i < n; i++) {
                for (int k = 0; k < size; k++)
                    v[k] = fac_pat (tag + i, k);
                if (hev_task_channel_write (a, v.data (), size) != size)
                    FAC_BAD ("channel: short write");
            }
        })) {
        hev_task_channel_destroy (a);
        hev_task_channel_destroy (b);
        return -1;
    }
    std::vector<unsigned char> v (size + 8);
    for (int i = 0; i < n; i++) {
        r = hev_task_channel_read (b, v.data (), size);
        if (r != size)
            FAC_BAD ("channel: read %d of %d", r, size);
        for (int k = 0; k < size; k++) {
            if (v[k] != fac_pat (tag + i, k))
                FAC_BAD ("channel: wrong byte %d in message %d", k, i);
            h = h * 31 + v[k];
        }
    }
    fac_join (&s);
    hev_task_channel_destroy (a);
    hev_task_channel_destroy (b);
    return h & 0x7fffffff;
}

static long
fac_select (Fac &f)
{
    HevTaskChannelSelect *sel;
    HevTaskChannel *a[2], *b[2], *x;
    FacSub s;
    int n = f.range (1, 8), got = 0, order = f.u (256);
    long sum = 0;

    sel = hev_task_channel_select_new ();
    if (!sel)
        return -1;
    for (int i = 0; i < 2; i++)
        if (hev_task_channel_new_with_buffers (&a[i], &b[i], 8, 4) < 0) {
            if (i) {
                hev_task_channel_select_del (sel, b[0]);
                hev_task_channel_destroy (a[0]);
                hev_task_channel_destroy (b[0]);
            }
            hev_task_channel_select_destroy (sel);
            return -1;
        } else {
            hev_task_channel_select_add (sel, b[i]);
        }
    if (hev_task_channel_select_read (sel, 1))
        FAC_BAD ("select: an empty channel is ready");
    if (fac_go (&s, [=] {
            for (int i = 0; i < n; i++) {
                uint64_t v = i + 1;
                if (hev_task_channel_write (a[order >> (i & 7) & 1], &v, 8) !=
                    8)
                    FAC_BAD ("select: short write");
            }
        })) {
        while (got < n) {
            uint64_t v = 0;
            x = hev_task_channel_select_read (sel, -1);
            if (x != b[0] && x != b[1])
                FAC_BAD ("select: not a channel of this selector");
            if (hev_task_channel_read (x, &v, 8) != 8 || v == 0)
                FAC_BAD ("select: nothing to read");
            sum += v;
            got++;
        }
        fac_join (&s);
        if (sum != n * (n + 1) / 2)
            FAC_BAD ("select: sum %ld", sum);
    } else {
        sum = -1;
    }
    for (int i = 0; i < 2; i++) {
        hev_task_channel_select_del (sel, b[i]);
        hev_task_channel_destroy (a[i]);
        hev_task_channel_destroy (b[i]);
    }
    hev_task_channel_select_destroy (sel);
    return sum;
}

/* n bytes from the other end of fd; false: error */
static void
fac_write (int fd, size_t n, uint64_t tag, bool sock)
{
    std::vector<unsigned char> v (n);
    size_t at = 0;

    for (size_t i = 0; i < n; i++)
        v[i] = fac_pat (tag, i);
    while (at < n) {
        ssize_t r = sock ? hev_task_io_socket_send (fd, &v[at], n - at, 0,
                                                    NULL, NULL)
                         : hev_task_io_write (fd, &v[at], n - at, NULL, NULL);
        if (r <= 0)
            FAC_BAD ("io: write gave %zd, %s", r, strerror (errno));
        at += r;
    }
}

static void
fac_read (int fd, size_t n, uint64_t tag, bool sock)
{
    std::vector<unsigned char> v (n);
    size_t at = 0;

    while (at < n) {
        ssize_t r = sock ? hev_task_io_socket_recv (fd, &v[at], n - at, 0,
                                                    NULL, NULL)
                         : hev_task_io_read (fd, &v[at], n - at, NULL, NULL);
        if (r <= 0)
            FAC_BAD ("io: read gave %zd after %zu of %zu", r, at, n);
        at += r;
    }
    for (size_t i = 0; i < n; i++)
        if (v[i] != fac_pat (tag, i))
            FAC_BAD ("io: wrong byte %zu of %zu", i, n);
}

static long
fac_pipe (Fac &f)
{
    int p[2];
    size_t n = f.u (3) ? f.range (1, 5000) : f.range (60000, 150000);
    uint64_t tag = f.u (1000);
    bool sock = f.u (2), bad = false, wbad = false;
    FacSub s;

    if ((sock ? hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, p)
              : hev_task_io_pipe_pipe (p)) < 0)
        return -1;
    if (hev_task_add_fd (hev_task_self (), p[0], POLLIN) < 0) {
        bad = true;
    } else if (fac_go (&s, [=, &wbad] {
                   if (hev_task_add_fd (hev_task_self (), p[1], POLLOUT) < 0) {
                       wbad = true;
                       return;
                   }
                   fac_write (p[1], n, tag, sock);
                   hev_task_del_fd (hev_task_self (), p[1]);
               })) {
        hev_task_yield (HEV_TASK_YIELD);
        if (!wbad)
            fac_read (p[0], n, tag, sock);
        fac_join (&s);
        bad = wbad;
    } else {
        bad = true;
    }
    hev_task_del_fd (hev_task_self (), p[0]);
    close (p[0]);
    close (p[1]);
    return bad ? -1 : (long)n;
}

static long
fac_tcp (Fac &f)
{
    struct sockaddr_in sa;
    socklen_t sl = sizeof (sa);
    int l, c = -1, one = 1;
    size_t n = f.range (1, 9000);
    uint64_t tag = f.u (1000);
    bool cbad = false, abad = false;
    HevTask *me = hev_task_self ();
    FacSub s;

    l = hev_task_io_socket_socket (AF_INET, SOCK_STREAM, 0);
    if (l < 0)
        return -1;
    memset (&sa, 0, sizeof (sa));
    sa.sin_family = AF_INET;
    sa.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
    setsockopt (l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof (one));
    if (bind (l, (struct sockaddr *)&sa, sl) < 0 || listen (l, 5) < 0 ||
        getsockname (l, (struct sockaddr *)&sa, &sl) < 0)
        vt_fail ("harness: no loopback: %s", strerror (errno));
    if (hev_task_add_fd (me, l, POLLIN) < 0) {
        close (l);
        return -1;
    }
    if (!fac_go (&s, [=, &cbad, &abad] {
            struct linger lg = { 1, 0 };
            HevTask *me = hev_task_self ();
            int k = hev_task_io_socket_socket (AF_INET, SOCK_STREAM, 0);
            if (k < 0) {
                cbad = true;
                return;
            }
            if (hev_task_add_fd (me, k, POLLIN | POLLOUT) < 0) {
                cbad = true;
                close (k);
                return;
            }
            if (hev_task_io_socket_connect (k, (struct sockaddr *)&sa,
                                            sizeof (sa), NULL, NULL) != 0 &&
                !abad)
                FAC_BAD ("tcp: connect: %s", strerror (errno));
            /* wait for the greeting: the other side may have given up */
            char g;
            ssize_t r = hev_task_io_socket_recv (k, &g, 1, 0, NULL, NULL);
            if (r == 1) {
                fac_write (k, n, tag, true);
                fac_read (k, 1, tag + 1, true);
            } else if (!abad) {
                FAC_BAD ("tcp: no greeting: %zd", r);
            }
            hev_task_del_fd (me, k);
            setsockopt (k, SOL_SOCKET, SO_LINGER, &lg, sizeof (lg));
            close (k);
        })) {
        hev_task_del_fd (me, l);
        close (l);
        return -1;
    }
    hev_task_yield (HEV_TASK_YIELD);
    if (!cbad) {
        c = hev_task_io_socket_accept (l, NULL, NULL, NULL, NULL);
        if (c < 0) {
            if (!fac_fired)
                FAC_BAD ("tcp: accept: %s", strerror (errno));
            abad = true;
        } else if (hev_task_add_fd (me, c, POLLIN | POLLOUT) < 0) {
            abad = true;
        } else {
            if (hev_task_io_socket_send (c, "g", 1, 0, NULL, NULL) != 1)
                FAC_BAD ("tcp: no greeting sent");
            fac_read (c, n, tag, true);
            fac_write (c, 1, tag + 1, true);
            hev_task_del_fd (me, c);
        }
    }
    hev_task_del_fd (me, l);
    close (l);
    if (abad && c >= 0) {
        close (c);
        c = -1;
    }
    fac_join (&s);
    if (c >= 0)
        close (c);
    return cbad || abad ? -1 : (long)n;
}

static long
fac_open (Fac &f)
{
    char path[300], name[64];
    const char *dir = getenv ("VT_SCRATCH");
    int fd, d, e;
    long n = f.range (1, 100), r = 0;
    struct stat st;

    snprintf (name, sizeof (name), "fac-%d-%d", (int)getpid (), f.id);
    snprintf (path, sizeof (path), "%s/%s", dir ? dir : "/tmp", name);
    switch (f.u (3)) {
    case 0:
        fd = hev_task_io_open (path, O_RDWR | O_CREAT | O_TRUNC, 0600);
        break;
    case 1:
        fd = hev_task_io_creat (path, 0600);
        break;
    default: {
        int dd = open (dir ? dir : "/tmp", O_RDONLY | O_DIRECTORY);
        fd = hev_task_io_openat (dd, name, O_RDWR | O_CREAT, 0600);
        close (dd);
    }
    }
    if (fd < 0) {
        unlink (path);
        return -1;
    }
    std::vector<char> v (n, 'x');
    if (hev_task_io_write (fd, v.data (), n, NULL, NULL) != n)
        FAC_BAD ("open: short write");
    d = hev_task_io_dup (fd);
    if (d >= 0) {
        e = hev_task_io_dup2 (fd, d);
        if (e < 0)
            r = -1;
        else if (e != d || fstat (d, &st) || st.st_size != n)
            FAC_BAD ("open: the copy is not the file");
        close (d);
    } else {
        r = -1;
    }
    close (fd);
    unlink (path);
    return r < 0 ? -1 : n;
}

static long
fac_poll (Fac &f)
{
    int p[2];
    bool bad = false;
    int ms = f.range (0, 2);

    if (hev_task_io_pipe_pipe (p) < 0)
        return -1;
    struct pollfd pf[2] = { { p[0], POLLIN, 0 }, { p[1], POLLOUT, 0 } };
    int r = hev_task_io_poll (pf, 1, ms);
    if (r < 0)
        bad = true;
    else if (r != 0)
        FAC_BAD ("poll: an empty pipe is readable");
    if (!bad) {
        if (write (p[1], "x", 1) != 1)
            vt_fail ("harness: write");
        r = hev_task_io_poll (pf, 2, f.u (2) ? -1 : 5);
        if (r < 0)
            bad = true;
        else if (r != 2 || !(pf[0].revents & POLLIN))
            FAC_BAD ("poll: %d ready", r);
    }
    close (p[0]);
    close (p[1]);
    return bad ? -1 : ms + 1;
}

/* the caller feeds a[0] and drains b[1] */
static long
fac_splice_run (Fac &f, std::function<bool (int, int, bool *)> mid)
{
    int a[2], b[2];
    size_t n = f.u (3) ? f.range (1, 6000) : f.range (20000, 90000);
    uint64_t tag = f.u (1000);
    HevTask *me = hev_task_self ();
    bool bad = false;
    FacSub s, w;

    if (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, a) < 0)
        return -1;
    if (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, b) < 0) {
        close (a[0]);
        close (a[1]);
        return -1;
    }
    s.t = w.t = NULL;
    bool over = false;
    if (hev_task_add_fd (me, b[1], POLLIN) < 0 ||
        !fac_go (&s, [&] {
            mid (a[1], b[0], &bad);
            over = true;
            /* whatever happened, nobody waits for more */
            shutdown (b[0], SHUT_RDWR);
            shutdown (a[1], SHUT_RDWR);
        })) {
        bad = true;
    } else {
        bool fed = fac_go (&w, [=, &bad] {
            HevTask *m = hev_task_self ();
            std::vector<unsigned char> v (n);
            size_t at = 0;
            if (hev_task_add_fd (m, a[0], POLLOUT) < 0) {
                bad = true;
                shutdown (a[0], SHUT_WR);
                return;
            }
            for (size_t i = 0; i < n; i++)
                v[i] = fac_pat (tag, i);
            while (at < n) {
                ssize_t r = hev_task_io_write (a[0], &v[at], n - at, NULL,
                                               NULL);
                if (r <= 0)
                    break;
                at += r;
            }
            shutdown (a[0], SHUT_WR);
            hev_task_del_fd (m, a[0]);
        });
        if (!fed) {
            bad = true;
            shutdown (a[0], SHUT_WR);
        }
        size_t got = 0;
        for (;;) {
            unsigned char v[3000];
            ssize_t r = hev_task_io_read (b[1], v, sizeof (v), NULL, NULL);
            if (r <= 0)
                break;
            for (ssize_t i = 0; i < r; i++)
                if (v[i] != fac_pat (tag, got + i))
                    FAC_BAD ("splice: wrong byte %zu", got + i);
            got += r;
        }
        fac_join (&w);
        fac_join (&s);
        if (!bad && got != n && fac_fired)
            bad = true;
        if (!bad && got != n)
            FAC_BAD ("splice: %zu of %zu bytes arrived", got, n);
    }
    hev_task_del_fd (me, b[1]);
    close (a[0]);
    close (a[1]);
    close (b[0]);
    close (b[1]);
    return bad ? -1 : (long)n;
}

static long
fac_splice (Fac &f)
{
    int size = f.range (1, 9000);

    return fac_splice_run (f, [=] (int x, int y, bool *bad) {
        HevTask *me = hev_task_self ();
        if (hev_task_add_fd (me, x, POLLIN | POLLOUT) < 0) {
            *bad = true;
            return false;
        }
        if (hev_task_add_fd (me, y, POLLIN | POLLOUT) < 0) {
            *bad = true;
            hev_task_del_fd (me, x);
            return false;
        }
        hev_task_io_splice (x, x, y, y, size, NULL, NULL);
        hev_task_del_fd (me, x);
        hev_task_del_fd (me, y);
        return true;
    });
}

static long
fac_ciosplice (Fac &f)
{
    int size = f.range (1, 5000), kind = f.u (3);

    return fac_splice_run (f, [=] (int x, int y, bool *bad) {
        HevTask *me = hev_task_self ();
        int fx = dup (x), fy = dup (y);
        Cio *cx = NULL, *cy = NULL, *bx = NULL;
        bool rx = false, ry = false;

        cx = kind ? hev_task_cio_socket_new (AF_UNIX, fx)
                  : hev_task_cio_fd_new (fx, fx);
        cy = hev_task_cio_fd_new (fy, fy);
        if (kind == 2 && cx) {
            bx = hev_task_cio_buffer_new (1024, 1024);
            if (bx)
                cx = hev_task_cio_push (bx, cx);
            else
                *bad = true;
        }
        if (!cx || !cy)
            *bad = true;
        if (!*bad) {
            rx = hev_task_add_fd (me, fx, POLLIN | POLLOUT) == 0;
            ry = hev_task_add_fd (me, fy, POLLIN | POLLOUT) == 0;
            if (rx && ry)
                hev_task_cio_splice (cx, cy, size, NULL, NULL);
            else
                *bad = true;
            if (rx)
                hev_task_del_fd (me, fx);
            if (ry)
                hev_task_del_fd (me, fy);
        }
        if (cx)
            sh_unref (cx);
        else
            close (fx);
        if (cy)
            sh_unref (cy);
        else
            close (fy);
        return !*bad;
    });
}

static long
fac_cio (Fac &f)
{
    int p[2], depth = f.range (0, 2);
    /* small: a socket takes only so many small pieces */
    size_t n = f.range (1, 200);
    HevTask *me = hev_task_self ();
    Cio *w = NULL, *r = NULL, *l;
    bool bad = false;
    uint64_t tag = f.u (1000);

    if (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, p) < 0)
        return -1;
    w = f.u (2) ? hev_task_cio_fd_new (p[0], p[0])
                : hev_task_cio_socket_new (AF_UNIX, p[0]);
    r = hev_task_cio_fd_new (p[1], p[1]);
    bad = !w || !r;
    for (int i = 0; i < depth && !bad; i++) {
        l = f.u (3) ? hev_task_cio_buffer_new (f.range (1, 2000),
                                               f.range (1, 2000))
                    : hev_task_cio_null_new ();
        if (!l) {
            bad = true;
            break;
        }
        /* a bare sink would swallow everything */
        sh_unref (l);
        l = hev_task_cio_buffer_new (f.range (1, 2000), f.range (1, 2000));
        if (!l) {
            bad = true;
            break;
        }
        if (i)
            r = hev_task_cio_push (l, r);
        else
            w = hev_task_cio_push (l, w);
    }
    if (!bad && (hev_task_add_fd (me, p[0], POLLIN | POLLOUT) < 0 ||
                 hev_task_add_fd (me, p[1], POLLIN | POLLOUT) < 0))
        bad = true;
    if (!bad) {
        FacSub s;
        std::vector<unsigned char> v (n), x (n);
        for (size_t i = 0; i < n; i++)
            v[i] = fac_pat (tag, i);
        if (hev_task_cio_write_exact (w, v.data (), n, NULL, NULL) !=
                (ssize_t)n ||
            hev_task_cio_flush (w, NULL, NULL) != 0)
            FAC_BAD ("cio: write failed");
        if (hev_task_cio_read_exact (r, x.data (), n, NULL, NULL) !=
                (ssize_t)n ||
            memcmp (v.data (), x.data (), n))
            FAC_BAD ("cio: wrong bytes");
    }
    hev_task_del_fd (me, p[0]);
    hev_task_del_fd (me, p[1]);
    if (w)
        sh_unref (w);
    else
        close (p[0]);
    if (r)
        sh_unref (r);
    else
        close (p[1]);
    return bad ? -1 : (long)n;
}

static long
fac_buffer (Fac &f)
{
    size_t cap = f.range (1, 500);
    HevCircularBuffer *b = hev_circular_buffer_new (cap);
    struct iovec v[2];
    uint64_t h = 0;

    if (!b)
        return -1;
    hev_circular_buffer_ref (b);
    hev_circular_buffer_unref (b);
    for (int i = 0; i < 5; i++) {
        if (hev_circular_buffer_writing (b, v) > 0) {
            size_t k = f.range (1, v[0].iov_len);
            memset (v[0].iov_base, i, k);
            hev_circular_buffer_write_finish (b, k);
            hev_task_yield (HEV_TASK_YIELD);
        }
        if (hev_circular_buffer_reading (b, v) > 0) {
            h = h * 31 + *(unsigned char *)v[0].iov_base + v[0].iov_len;
            hev_circular_buffer_read_finish (b, v[0].iov_len);
        }
    }
    hev_circular_buffer_unref (b);
    return h & 0x7fffffff;
}

struct FacCall {
    HevTaskCall base;
    long in;
};

static void
fac_call_entry (HevTaskCall *c)
{
    FacCall *k = (FacCall *)c;

    hev_task_yield (HEV_TASK_YIELD);
    hev_task_sleep (1);
    hev_task_call_set_retval (c, (void *)(k->in * 3));
}

static long
fac_call (Fac &f)
{
    FacCall *c = (FacCall *)hev_task_call_new (sizeof (FacCall), 32 * 1024);
    long in = f.range (1, 1000);
    void *r;

    if (!c)
        return -1;
    for (int i = 0; i < 2; i++) {
        c->in = in + i;
        r = hev_task_call_jump (&c->base, fac_call_entry);
        if (r != (void *)((in + i) * 3))
            FAC_BAD ("call: wrong result");
    }
    hev_task_call_destroy (&c->base);
    return in;
}

/* questions asked and not yet answered */
static int fac_out;

static int
fac_external (void)
{
    return __atomic_load_n (&fac_out, __ATOMIC_RELAXED);
}

static long
fac_dns (Fac &f)
{
    char node[40], service[20];
    struct addrinfo hints, *res = NULL, *want = NULL;
    int r, w;
    long h;

    memset (&hints, 0, sizeof (hints));
    hints.ai_socktype = f.u (2) ? SOCK_STREAM : 0;
    snprintf (node, sizeof (node), "%c%d", f.u (4) ? 'n' : 'e',
              (int)f.u (100000));
    snprintf (service, sizeof (service), "%d", (int)f.u (1000));
    __atomic_add_fetch (&fac_out, 1, __ATOMIC_RELAXED);
    r = hev_task_dns_getaddrinfo (node, service, &hints, &res);
    __atomic_sub_fetch (&fac_out, 1, __ATOMIC_RELAXED);
    if (r == EAI_SYSTEM)
        return -1;
    w = fac_gai (node, service, &hints, &want);
    if (r != w)
        FAC_BAD ("dns: result %d, not %d", r, w);
    h = r;
    if (r == 0) {
        if (!res || memcmp (res->ai_addr, want->ai_addr, want->ai_addrlen) ||
            res->ai_socktype != want->ai_socktype)
            FAC_BAD ("dns: wrong address");
        h += ((struct sockaddr_in *)res->ai_addr)->sin_port;
        free (res);
        free (want);
    }
    if (f.u (2)) {
        struct sockaddr_in sa;
        char n1[40] = "", s1[20] = "", n2[40] = "", s2[20] = "";
        memset (&sa, 0, sizeof (sa));
        sa.sin_family = AF_INET;
        sa.sin_addr.s_addr = f.u (100000);
        sa.sin_port = f.u (60000);
        __atomic_add_fetch (&fac_out, 1, __ATOMIC_RELAXED);
        r = hev_task_dns_getnameinfo ((struct sockaddr *)&sa, sizeof (sa), n1,
                                      sizeof (n1), s1, sizeof (s1), 0);
        __atomic_sub_fetch (&fac_out, 1, __ATOMIC_RELAXED);
        w = fac_gni ((struct sockaddr *)&sa, sizeof (sa), n2, sizeof (n2), s2,
                     sizeof (s2), 0);
        if (r == EAI_SYSTEM)
            return -1;
        if (r != w || strcmp (n1, n2) || strcmp (s1, s2))
            FAC_BAD ("dns: wrong name");
    }
    return h + 100;
}

static long
fac_mem (Fac &f)
{
    unsigned char *p[12];
    size_t n[12];
    int k = f.range (1, 12), i;
    long r = 0;

    for (i = 0; i < k; i++) {
        n[i] = f.u (4) ? f.range (1, 400) : f.range (1, 9000);
        switch (f.u (3)) {
        case 0:
            p[i] = (unsigned char *)hev_malloc (n[i]);
            break;
        case 1:
            p[i] = (unsigned char *)hev_malloc0 (n[i]);
            break;
        default:
            p[i] = (unsigned char *)hev_calloc (n[i], 1);
        }
        if (!p[i]) {
            r = -1;
            break;
        }
        for (size_t j = 0; j < n[i]; j++)
            p[i][j] = fac_pat (i, j);
        if (f.u (3) == 0)
            hev_task_yield (HEV_TASK_YIELD);
        if (f.u (3) == 0) {
            size_t m = f.range (1, 3000);
            unsigned char *q = (unsigned char *)hev_realloc (p[i], m);
            if (q) {
                p[i] = q;
                if (m < n[i])
                    n[i] = m;
            } else {
                r = -1;
            }
        }
    }
    while (i-- > 0) {
        for (size_t j = 0; j < n[i]; j++)
            if (p[i][j] != fac_pat (i, j))
                FAC_BAD ("memory: a block changed");
        hev_free (p[i]);
    }
    return r < 0 ? r : k;
}

typedef long (*FacFn) (Fac &);
static const struct {
    const char *name;
    FacFn fn;
} facs[] = {
    { "tasks", fac_tasks },     { "sleep", fac_sleep },
    { "cond", fac_cond },       { "channel", fac_channel },
    { "select", fac_select },   { "pipe", fac_pipe },
    { "tcp", fac_tcp },         { "open", fac_open },
    { "poll", fac_poll },       { "splice", fac_splice },
    { "cio", fac_cio },         { "cio splice", fac_ciosplice },
    { "buffer", fac_buffer },   { "call", fac_call },
    { "dns", fac_dns },         { "memory", fac_mem },
};
#define NFAC ((int)(sizeof (facs) / sizeof (facs[0])))

#endif
