// VARIANTS default:90000:1200000 heap:10000:100000 asan:5000:60000
#include "link.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <set>
#include <sys/stat.h>

const char *prop_id = "C16";
const char *prop_rule =
    "A case is a series of open, create, duplicate, pipe, socket, socket-pair and "
    "accept calls with generated arguments, each also made by the system call in "
    "an identical directory or with identical arguments, with failures injected "
    "into the system calls behind it. Non-trivial: at least two calls that "
    "succeeded and one that failed. Distinct by the calls and results.";

static char top[200];
static int okays, fails, injected;
static int inj_nth, inj_call, inj_err, inj_hit;

static int
fault (int call, int fd)
{
    bool match = inj_call == VC_ioctl ? call == VC_ioctl || call == VC_fcntl
                                      : call == inj_call;
    if (!inj_nth || !match)
        return 0;
    if (--inj_nth)
        return 0;
    inj_hit++;
    injected++;
    return inj_err;
}

static void
arm (int call, int err, int nth)
{
    inj_call = call;
    inj_err = err;
    inj_nth = nth;
    inj_hit = 0;
}

static int
fds (vos_fdset *s)
{
    vos_fds (s);
    return vos_fds_count (s);
}

static const char *const names[] = { "f", "d", "l", "x", "p", "n0", "n1",
                                     "d/n", "f/n", "m/n", "", "d/", "f/" };

static void
wipe (void)
{
    char b[400];
    for (int k = 0; k < 2; k++) {
        for (const char *n : { "f", "l", "x", "p", "n0", "n1", "nf", "d/n" }) {
            snprintf (b, sizeof (b), "%s/%d/%s", top, k, n);
            unlink (b);
        }
        snprintf (b, sizeof (b), "%s/%d/d", top, k);
        rmdir (b);
    }
}

static void
populate (void)
{
    char b[400];
    const char *s = getenv ("VT_SCRATCH");

    if (!s)
        vt_fail ("harness: no scratch directory");
    snprintf (top, sizeof (top), "%s/%d", s, getpid ());
    mkdir (top, 0755);
    for (int k = 0; k < 2; k++) {
        snprintf (b, sizeof (b), "%s/%d", top, k);
        mkdir (b, 0755);
    }
    wipe ();
    for (int k = 0; k < 2; k++) {
        snprintf (b, sizeof (b), "%s/%d/f", top, k);
        int fd = open (b, O_CREAT | O_WRONLY, 0644);
        if (fd < 0 || write (fd, "0123456789", 10) != 10)
            vt_fail ("harness: scratch file");
        close (fd);
        snprintf (b, sizeof (b), "%s/%d/d", top, k);
        mkdir (b, 0755);
        snprintf (b, sizeof (b), "%s/%d/l", top, k);
        if (symlink ("f", b))
            vt_fail ("harness: link");
        snprintf (b, sizeof (b), "%s/%d/x", top, k);
        if (symlink ("nf", b))
            vt_fail ("harness: link");
        snprintf (b, sizeof (b), "%s/%d/p", top, k);
        mkfifo (b, 0644);
    }
}

static void
same_trees (void)
{
    char b[400];
    for (const char *n : { "f", "d", "l", "x", "p", "n0", "n1", "nf", "d/n" }) {
        struct stat s[2];
        int r[2];
        for (int k = 0; k < 2; k++) {
            snprintf (b, sizeof (b), "%s/%d/%s", top, k, n);
            r[k] = lstat (b, &s[k]);
        }
        VT_CHECK (r[0] == r[1], "effect: %s %s", n,
                  r[0] ? "was not created" : "was created");
        if (!r[0])
            VT_CHECK (s[0].st_mode == s[1].st_mode &&
                          s[0].st_size == s[1].st_size,
                      "effect: %s has mode %o size %ld, the system call gives "
                      "%o, %ld", n, s[0].st_mode, (long)s[0].st_size,
                      s[1].st_mode, (long)s[1].st_size);
    }
}

/* the same kind of descriptor as the reference? */
static void
same_fd (int a, int b)
{
    struct stat s, t;
    int fl = fcntl (a, F_GETFL), fr = fcntl (b, F_GETFL) | O_NONBLOCK;

    VT_CHECK (fl >= 0, "result: descriptor %d is not open", a);
    VT_CHECK (fl & O_NONBLOCK, "blocking: the descriptor is blocking");
    VT_CHECK (fl == fr, "flags: %#x, the system call gives %#x", fl, fr);
    VT_CHECK (fcntl (a, F_GETFD) == fcntl (b, F_GETFD),
              "flags: close-on-exec is %d", fcntl (a, F_GETFD));
    fstat (a, &s);
    fstat (b, &t);
    VT_CHECK (s.st_mode == t.st_mode && (!S_ISREG (s.st_mode) ||
                                         s.st_size == t.st_size),
              "kind: mode %o size %ld, the system call gives %o, %ld", s.st_mode,
              (long)s.st_size, t.st_mode, (long)t.st_size);
    VT_CHECK (lseek (a, 0, SEEK_CUR) == lseek (b, 0, SEEK_CUR),
              "kind: different offset");
    int v, w;
    socklen_t l;
    for (int o : { SO_TYPE, SO_DOMAIN, SO_PROTOCOL, SO_ACCEPTCONN }) {
        v = w = -1;
        l = sizeof (v);
        getsockopt (a, SOL_SOCKET, o, &v, &l);
        l = sizeof (w);
        getsockopt (b, SOL_SOCKET, o, &w, &l);
        VT_CHECK (v == w, "kind: socket option %d is %d, expected %d", o, v, w);
    }
}

static void
do_open (void)
{
    static const int more[] = { O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_CLOEXEC,
                                O_DIRECTORY, O_NOFOLLOW, O_SYNC, O_DSYNC,
                                O_NOATIME };
    int form = vt_weight ({ 4, 4, 2 });
    int fl = vt_u (3), a, b, ea, eb;
    mode_t mode = vt_chance (1, 2) ? vt_pick ({ 0644, 0600, 0755, 0 })
                                   : vt_u (010000);
    const char *n = names[vt_u (sizeof (names) / sizeof (*names))];
    char pa[400], pb[400];
    mode_t um = vt_pick ({ 022, 0, 077, 027 });
    int how = vt_weight ({ 4, 1, 1, 1 });
    int da = -1, db = -1;

    for (int o : more)
        if (vt_chance (1, o == O_CREAT ? 2 : 5))
            fl |= o;
    if (vt_chance (1, 8)) {
        fl = (fl & ~(O_CREAT | O_DIRECTORY)) | O_TMPFILE;
        if (vt_bool ())
            n = "d";
    }
    if (vt_chance (1, 4))
        fl |= O_NONBLOCK;
    if (form == 1 && how < 2) {
        snprintf (pa, sizeof (pa), "%s", n);
        snprintf (pb, sizeof (pb), "%s", n);
        char d[300];
        for (int k = 0; k < 2; k++) {
            snprintf (d, sizeof (d), "%s/%d%s", top, k, how ? "/f" : "");
            (k ? db : da) = open (d, O_RDONLY);
        }
    } else {
        snprintf (pa, sizeof (pa), "%s/0/%s", top, n);
        snprintf (pb, sizeof (pb), "%s/1/%s", top, n);
        if (!*n)
            pa[0] = pb[0] = 0;
        if (form == 1)
            da = db = how == 2 ? AT_FDCWD : -1;
    }
    if (form == 1 && how == 3)
        strcpy (pa, n), strcpy (pb, n);
    umask (um);
    arm (vt_pick ({ VC_open, VC_openat, VC_creat }),
         vt_errno (),
         vt_chance (1, 10) ? 1 : 0);
    vos_fdset s0;
    int c0 = fds (&s0);
    vt_log ("open form %d \"%s\" flags %#o mode %o umask %o", form, n, fl, mode,
            um);
    errno = 0;
    switch (form) {
    case 0:
        a = fl & (O_CREAT | O_TMPFILE) ? hev_task_io_open (pa, fl, mode)
                                       : hev_task_io_open (pa, fl);
        break;
    case 1:
        a = fl & (O_CREAT | O_TMPFILE) ? hev_task_io_openat (da, pa, fl, mode)
                                       : hev_task_io_openat (da, pa, fl);
        break;
    default:
        a = hev_task_io_creat (pa, mode);
    }
    ea = errno;
    inj_nth = 0;
    vos_fdset s1;
    int c1 = fds (&s1);
    if (inj_hit) {
        VT_CHECK (a < 0 && ea == inj_err, "result: %d errno %d, the system call "
                  "failed with %d", a, ea, inj_err);
        VT_CHECK (c0 == c1, "leak: %d descriptors before, %d after", c0, c1);
        fails++;
    } else {
        errno = 0;
        b = form == 0   ? open (pb, fl | O_NONBLOCK, mode)
            : form == 1 ? openat (db, pb, fl | O_NONBLOCK, mode)
                        : open (pb, O_CREAT | O_WRONLY | O_TRUNC | O_NONBLOCK,
                                mode);
        eb = errno;
        vt_log ("gives %d errno %d, the system call %d errno %d", a, ea, b, eb);
        VT_CHECK ((a < 0) == (b < 0) && (b >= 0 || ea == eb),
                  "result: %d errno %d, the system call gives %d errno %d", a,
                  ea, b, eb);
        VT_CHECK (c1 == c0 + (a >= 0), "leak: %d descriptors before, %d after",
                  c0, c1);
        if (a >= 0) {
            same_fd (a, b);
            close (a);
            close (b);
            okays++;
        } else {
            fails++;
        }
        same_trees ();
    }
    if (da >= 0)
        close (da);
    if (db >= 0)
        close (db);
    umask (022);
    vt_sig (fl ^ (mode << 8));
    vt_sig (a >= 0 ? -1 : ea);
}

static void
do_socket (bool pair)
{
    static const int dom[] = { AF_UNIX, AF_INET, AF_INET6, AF_NETLINK, 9999,
                               AF_UNSPEC };
    static const int typ[] = { SOCK_STREAM, SOCK_DGRAM, SOCK_SEQPACKET, SOCK_RAW,
                               77 };
    int d = dom[vt_weight ({ 6, 3, 2, 1, 1, 1 })];
    int t = typ[vt_weight ({ 5, 5, 3, 1, 1 })];
    int p = vt_weight ({ 5, 1, 1, 1 });
    int va[2] = { -7, -8 }, vb[2] = { -7, -8 }, a, b, ea, eb;

    p = p == 0 ? 0 : p == 1 ? IPPROTO_TCP : p == 2 ? IPPROTO_UDP : 200;
    if (vt_chance (1, 3))
        t |= SOCK_CLOEXEC;
    if (vt_chance (1, 3))
        t |= SOCK_NONBLOCK;
    bool mine = vt_chance (1, 4);
    arm (vt_bool () ? VC_ioctl : pair ? VC_socketpair : VC_socket,
         vt_errno (),
         mine ? vt_range (1, 3) : 0);
    vos_fdset s0, s1;
    int c0 = fds (&s0);
    vt_log ("%s %d %#x %d", pair ? "socket pair" : "socket", d, t, p);
    errno = 0;
    a = pair ? hev_task_io_socket_socketpair (d, t, p, va)
             : hev_task_io_socket_socket (d, t, p);
    ea = errno;
    inj_nth = 0;
    int c1 = fds (&s1);
    vt_sig (d * 100 + t);
    vt_sig (p);
    vt_sig (a >= 0 ? -1 : inj_hit ? -2 : ea);
    if (inj_hit) {
        VT_CHECK (a < 0, "result: %d although a system call failed", a);
        VT_CHECK (inj_call == VC_ioctl || (a == -1 && ea == inj_err),
                  "result: %d errno %d, the system call failed with %d", a, ea,
                  inj_err);
        VT_CHECK (c0 == c1, "leak: %d descriptors before, %d after a failure",
                  c0, c1);
        fails++;
        return;
    }
    errno = 0;
    b = pair ? socketpair (d, t, p, vb) : socket (d, t, p);
    eb = errno;
    vt_log ("gives %d errno %d, the system call %d errno %d", a, ea, b, eb);
    VT_CHECK ((a < 0) == (b < 0) && (b >= 0 || ea == eb),
              "result: %d errno %d, the system call gives %d errno %d", a, ea,
              b, eb);
    VT_CHECK (c1 == c0 + (a < 0 ? 0 : 1 + pair),
              "leak: %d descriptors before, %d after", c0, c1);
    if (a < 0) {
        fails++;
        return;
    }
    okays++;
    if (pair) {
        VT_CHECK (a == 0 && va[0] != va[1], "result: %d", a);
        for (int i = 0; i < 2; i++)
            same_fd (va[i], vb[i]);
        char c = 'q', r = 0;
        for (int i = 0; i < 2; i++) {
            r = 0;
            VT_CHECK (write (va[i], &c, 1) == 1 && read (va[!i], &r, 1) == 1 &&
                          r == 'q',
                      "kind: the sockets are not connected");
        }
        for (int i = 0; i < 2; i++) {
            close (va[i]);
            close (vb[i]);
        }
    } else {
        same_fd (a, b);
        close (a);
        close (b);
    }
}

static void
do_pipe (void)
{
    int v[2] = { -7, -8 }, w[2], a, ea;

    arm (vt_bool () ? VC_ioctl : VC_pipe, vt_errno (),
         vt_chance (1, 2) ? vt_range (1, 3) : 0);
    vos_fdset s0, s1;
    int c0 = fds (&s0);
    errno = 0;
    a = hev_task_io_pipe_pipe (v);
    ea = errno;
    inj_nth = 0;
    int c1 = fds (&s1);
    vt_log ("pipe gives %d errno %d", a, ea);
    vt_sig (inj_hit ? ea + inj_call * 1000 : -1);
    if (inj_hit) {
        VT_CHECK (a < 0, "result: %d although a system call failed", a);
        VT_CHECK (inj_call == VC_ioctl || ea == inj_err,
                  "result: errno %d, the system call failed with %d", ea,
                  inj_err);
        VT_CHECK (c0 == c1, "leak: %d descriptors before, %d after a failure",
                  c0, c1);
        fails++;
        return;
    }
    VT_CHECK (a == 0 && c1 == c0 + 2, "result: %d, %d new descriptors", a,
              c1 - c0);
    if (pipe (w))
        vt_fail ("harness: pipe");
    same_fd (v[0], w[0]);
    same_fd (v[1], w[1]);
    char c = 'q', r = 0;
    VT_CHECK (write (v[1], &c, 1) == 1 && read (v[0], &r, 1) == 1 && r == 'q',
              "kind: the ends are not connected");
    for (int i = 0; i < 2; i++) {
        close (v[i]);
        close (w[i]);
    }
    okays++;
}

static void
do_dup (void)
{
    int two = vt_bool (), kind = vt_weight ({ 3, 2, 2, 1 });
    int old = -1, extra = -1, want = -1, a, ea, target = -1;
    bool cloexec = vt_chance (1, 3);
    char b[300];

    if (kind == 0) {
        snprintf (b, sizeof (b), "%s/0/f", top);
        old = open (b, O_RDWR | (vt_bool () ? O_APPEND : 0));
        lseek (old, vt_u (10), SEEK_SET);
    } else if (kind == 1) {
        int v[2];
        if (pipe (v))
            vt_fail ("harness: pipe");
        old = v[0];
        extra = v[1];
    } else if (kind == 2) {
        old = socket (AF_UNIX, SOCK_STREAM, 0);
    } else {
        old = vt_pick ({ -1, 3777, INT32_MAX });
    }
    if (kind != 3 && cloexec)
        fcntl (old, F_SETFD, FD_CLOEXEC);
    bool busy = false;
    if (two) {
        switch (vt_weight ({ 3, 3, 2, 1, 1 })) {
        case 4:
            if (vt_zero_idle) {
                vt_zero_idle = false;
                want = 0;
                busy = true;
                break;
            }
            /* fall through */
        case 0:
            want = vt_range (200, 300);
            break;
        case 1: /* a number in use */
            target = open ("/dev/null", O_RDWR | O_CLOEXEC);
            want = target;
            busy = true;
            break;
        case 2:
            want = old;
            break;
        case 3:
            want = vt_pick ({ -1, INT32_MAX });
            break;
        }
    } else if (vt_zero_idle && vt_chance (1, 8)) {
        vt_zero_idle = false;
        close (0);
    }
    bool samefd = two && want == old && kind != 3;
    int call = vt_bool () ? VC_ioctl : two ? VC_dup2 : VC_dup;
    /* taking a descriptor away from the caller is no clean failure */
    arm (call, vt_errno (),
         vt_chance (1, 4) && !samefd ? 1 : 0);
    vos_fdset s0, s1;
    int c0 = fds (&s0);
    vt_log ("dup%s %d to %d kind %d", two ? "2" : "", old, want, kind);
    errno = 0;
    a = two ? hev_task_io_dup2 (old, want) : hev_task_io_dup (old);
    ea = errno;
    inj_nth = 0;
    int c1 = fds (&s1);
    vt_log ("gives %d errno %d", a, ea);
    vt_sig (kind * 16 + two * 8 + busy * 4 + samefd * 2 + (a >= 0));
    if (inj_hit) {
        VT_CHECK (a < 0, "result: %d although a system call failed", a);
        if (call != VC_ioctl) {
            VT_CHECK (ea == inj_err, "result: errno %d, the system call failed "
                      "with %d", ea, inj_err);
            VT_CHECK (c0 == c1, "leak: %d descriptors before, %d after a "
                      "failure", c0, c1);
        } else {
            VT_CHECK (c1 == c0 - busy, "leak: %d descriptors before, %d after a "
                      "failure", c0, c1);
            if (busy)
                target = -1;
        }
        VT_CHECK (kind == 3 || fcntl (old, F_GETFD) >= 0,
                  "leak: the original descriptor was closed");
        fails++;
    } else {
        bool bad = kind == 3 || (two && (want < 0 || want == INT32_MAX));
        VT_CHECK ((a < 0) == bad, "result: %d errno %d", a, ea);
        if (bad) {
            VT_CHECK (ea == EBADF, "result: errno %d", ea);
            VT_CHECK (c0 == c1, "leak: %d descriptors before, %d after", c0,
                      c1);
            fails++;
        } else {
            struct stat s, t;
            VT_CHECK (!two || a == want, "result: %d instead of %d", a, want);
            VT_CHECK (c1 == c0 + (two && (busy || samefd) ? 0 : 1),
                      "leak: %d descriptors before, %d after", c0, c1);
            VT_CHECK (fcntl (a, F_GETFL) & O_NONBLOCK,
                      "blocking: the descriptor is blocking");
            VT_CHECK (fcntl (a, F_GETFL) == fcntl (old, F_GETFL),
                      "kind: different status flags");
            fstat (a, &s);
            fstat (old, &t);
            VT_CHECK (s.st_ino == t.st_ino && s.st_dev == t.st_dev,
                      "kind: not a duplicate");
            VT_CHECK (fcntl (a, F_GETFD) == (samefd && cloexec ? FD_CLOEXEC : 0),
                      "flags: close-on-exec is %d", fcntl (a, F_GETFD));
            if (kind == 0) {
                lseek (old, 3, SEEK_SET);
                VT_CHECK (lseek (a, 0, SEEK_CUR) == 3,
                          "kind: the offset is not shared");
            }
            if (busy)
                target = -1;
            if (a != old)
                close (a);
            okays++;
        }
    }
    if (target >= 0)
        close (target);
    if (kind != 3)
        close (old);
    if (extra >= 0)
        close (extra);
}

static void
do_accept (void)
{
    bool inet = vt_chance (1, 4), wait = vt_bool ();
    HevTask *t = hev_task_self ();
    struct sockaddr_storage ss, pa, ra;
    socklen_t sl, pl, rl;
    int ls, c[2], a, ea, r;
    struct linger lg = { 1, 0 };

    memset (&ss, 0, sizeof (ss));
    memset (&pa, 0x3c, sizeof (pa));
    memset (&ra, 0x3c, sizeof (ra));
    if (inet) {
        struct sockaddr_in *x = (struct sockaddr_in *)&ss;
        x->sin_family = AF_INET;
        x->sin_addr.s_addr = htonl (INADDR_LOOPBACK);
        sl = sizeof (*x);
    } else {
        ss.ss_family = AF_UNIX;
        sl = sizeof (sa_family_t);
    }
    ls = socket (inet ? AF_INET : AF_UNIX,
                 SOCK_STREAM | SOCK_NONBLOCK | (vt_bool () ? SOCK_CLOEXEC : 0),
                 0);
    if (ls < 0 || bind (ls, (struct sockaddr *)&ss, sl) || listen (ls, 4))
        vt_fail ("harness: listen %d", errno);
    sl = sizeof (ss);
    getsockname (ls, (struct sockaddr *)&ss, &sl);
    for (int i = 0; i < 2; i++)
        c[i] = socket (inet ? AF_INET : AF_UNIX, SOCK_STREAM, 0);
    auto dial = [&] {
        for (int i = 0; i < 2; i++)
            if (connect (c[i], (struct sockaddr *)&ss, sl))
                vt_fail ("harness: connect %d", errno);
    };
    hev_task_add_fd (t, ls, POLLIN);
    vos_fdset s0, s1;
    int c0 = fds (&s0);
    arm (vt_bool () ? VC_ioctl : VC_accept,
         vt_errno (),
         vt_chance (1, 3) ? 1 : 0);
    if (inj_nth && inj_call == VC_accept)
        wait = false;
    if (wait)
        ts_at (vos_now () + MS, dial);
    else
        dial ();
    pl = rl = vt_chance (3, 4) ? sizeof (pa) : vt_u (20);
    vt_log ("accept inet %d wait %d", inet, wait);
    errno = 0;
    a = hev_task_io_socket_accept (ls, (struct sockaddr *)&pa, &pl, NULL, NULL);
    ea = errno;
    inj_nth = 0;
    int c1 = fds (&s1);
    vt_log ("gives %d errno %d", a, ea);
    vt_sig (inet * 4 + wait * 2 + (a >= 0));
    if (inj_hit) {
        VT_CHECK (a < 0, "result: %d although a system call failed", a);
        VT_CHECK (inj_call == VC_ioctl || (a == -1 && ea == inj_err),
                  "result: %d errno %d, the system call failed with %d", a, ea,
                  inj_err);
        VT_CHECK (c0 == c1, "leak: %d descriptors before, %d after a failure",
                  c0, c1);
        fails++;
    } else {
        VT_CHECK (a >= 0 && c1 == c0 + 1, "result: %d errno %d, %d new "
                  "descriptors", a, ea, c1 - c0);
        r = accept (ls, (struct sockaddr *)&ra, &rl);
        if (r < 0)
            vt_fail ("harness: accept %d", errno);
        same_fd (a, r);
        VT_CHECK (pl == rl, "address: length %u, the system call gives %u", pl,
                  rl);
        char x = 'q', y = 0;
        VT_CHECK (write (c[0], &x, 1) == 1 && read (a, &y, 1) == 1 && y == 'q',
                  "kind: not the first connection");
        for (int f : { c[0], c[1], a, r })
            setsockopt (f, SOL_SOCKET, SO_LINGER, &lg, sizeof (lg));
        close (a);
        close (r);
        okays++;
    }
    hev_task_del_fd (t, ls);
    close (ls);
    /* leave no connection behind in the kernel */
    for (int i = 0; i < 2; i++) {
        setsockopt (c[i], SOL_SOCKET, SO_LINGER, &lg, sizeof (lg));
        close (c[i]);
    }
}

void
prop_case (void)
{
    int n = 0, len = vt_range (1, 10);
    bool done = false;

    ts_clock ();
    ts_env_clear ();
    vos_grace_ms = 200; /* loopback connections */
    okays = fails = injected = 0;
    inj_nth = 0;
    populate ();
    ts_init ();
    vos_fault = fault;
    ts_go ([&] {
        while (n++ < len) {
            switch (vt_weight ({ 6, 3, 2, 2, 3, 1 })) {
            case 0:
                do_open ();
                break;
            case 1:
                do_socket (false);
                break;
            case 2:
                do_socket (true);
                break;
            case 3:
                do_pipe ();
                break;
            case 4:
                do_dup ();
                break;
            case 5:
                do_accept ();
                break;
            }
        }
        done = true;
    });
    ts_run ();
    VT_CHECK (done, "lost: the task did not finish");
    vos_fault = NULL;
    ts_fini ();
    wipe ();
    if (okays >= 2 && fails)
        vt_nontrivial ();
    vt_label ("successful calls", okays);
    vt_label ("failed calls", fails);
    vt_label ("injected failures", injected);
    vt_sample ("calls=%d succeeded=%d failed=%d injected=%d", len, okays, fails,
               injected);
}
