/* One-way byte or message links whose ends are used by tasks or by the
 * outside world, with a model of what was sent and received. */
#ifndef LINK_HPP
#define LINK_HPP

#include "ts.hpp"
#include <deque>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

enum { LK_PIPE, LK_STREAM, LK_SEQ, LK_DGRAM };
static const char *const lk_name[] = { "pipe", "stream", "seqpacket", "dgram" };

struct Link {
    int kind, id;
    int rfd, wfd;
    uint64_t sent = 0, got = 0;
    struct M {
        uint64_t pos;
        size_t n;
    };
    std::deque<M> msgs; /* message kinds: unread messages */
    bool weof = false;  /* nothing more will be sent */
    bool rclosed = false, wclosed = false;
    bool msg () const { return kind >= LK_SEQ; }
};

static inline unsigned char
lk_byte (const Link *l, uint64_t pos)
{
    return (unsigned char)(vt_hash (0x11 + l->id, pos >> 3) >> (8 * (pos & 7)));
}

static inline void
lk_make (Link *l, int kind, int id)
{
    int v[2], sz = 4096;

    l->kind = kind;
    l->id = id;
    if (kind == LK_PIPE) {
        if (vt_pipe (v))
            vt_fail ("harness: pipe");
        fcntl (v[0], F_SETPIPE_SZ, 4096);
        l->rfd = v[0];
        l->wfd = v[1];
    } else {
        if (socketpair (AF_UNIX,
                        (kind == LK_STREAM ? SOCK_STREAM
                         : kind == LK_SEQ  ? SOCK_SEQPACKET
                                           : SOCK_DGRAM) |
                            SOCK_NONBLOCK,
                        0, v))
            vt_fail ("harness: socketpair");
        l->rfd = v[0];
        l->wfd = v[1];
        setsockopt (l->wfd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof (sz));
    }
}

static inline bool
lk_readable (const Link *l)
{
    return l->weof || (l->msg () ? !l->msgs.empty () : l->sent > l->got);
}

static inline bool
lk_writable (const Link *l)
{
    struct pollfd p = { l->wfd, POLLOUT, 0 };
    return poll (&p, 1, 0) > 0;
}

/* the bytes of the next n to be sent */
static inline void
lk_fill (const Link *l, unsigned char *b, size_t n)
{
    for (size_t i = 0; i < n; i++)
        b[i] = lk_byte (l, l->sent + i);
}

/* n bytes (one message) have been accepted */
static inline void
lk_sent (Link *l, size_t n)
{
    if (l->msg ())
        l->msgs.push_back ({ l->sent, n });
    l->sent += n;
}

/* check r received bytes (in b, space for n) and consume them */
static inline void
lk_take (Link *l, const unsigned char *b, size_t n, size_t r, bool peek)
{
    uint64_t pos = l->got;

    if (l->msg ()) {
        VT_CHECK (!l->msgs.empty (), "invented: received a message that was "
                                     "not sent");
        Link::M m = l->msgs.front ();
        VT_CHECK (r == (m.n < n ? m.n : n),
                  "boundary: received %zu of a message of %zu into %zu", r, m.n,
                  n);
        pos = m.pos;
        if (!peek) {
            l->msgs.pop_front ();
            l->got = m.pos + m.n;
        }
    } else {
        VT_CHECK (r <= l->sent - l->got, "invented: received %zu bytes, only "
                  "%llu were sent", r, (unsigned long long)(l->sent - l->got));
        if (!peek)
            l->got += r;
    }
    for (size_t i = 0; i < r; i++)
        VT_CHECK (b[i] == lk_byte (l, pos + i),
                  "data: wrong byte at offset %llu of the stream",
                  (unsigned long long)(pos + i));
}

/* the outside world writes / reads */
static inline ssize_t
lk_put (Link *l, size_t n)
{
    static unsigned char b[65536];
    ssize_t r;

    if (l->weof || l->wclosed)
        return -1;
    lk_fill (l, b, n);
    r = write (l->wfd, b, n);
    if (r >= 0)
        lk_sent (l, r);
    return r;
}

static inline ssize_t
lk_get (Link *l, size_t n)
{
    static unsigned char b[65536];
    ssize_t r;

    if (l->rclosed)
        return -1;
    if (l->msg () && l->msgs.empty ())
        return -1;
    r = read (l->rfd, b, n);
    if (r > 0 || (r == 0 && l->msg () && !l->msgs.empty ()))
        lk_take (l, b, n, r, false);
    return r;
}

static inline void
lk_close_w (Link *l)
{
    if (!l->wclosed) {
        l->wclosed = true;
        l->weof = true;
        close (l->wfd);
    }
}

static inline void
lk_close_r (Link *l)
{
    if (!l->rclosed) {
        l->rclosed = true;
        close (l->rfd);
    }
}

/* vector over one buffer, with empty elements */
struct Vec {
    std::vector<unsigned char> b;
    std::vector<struct iovec> v, copy;
    size_t n;
    Vec (size_t total, int maxel) : b (total + 16), n (total)
    {
        size_t off = 0;
        int k = 1 + (int)vt_u (maxel);
        bool many = maxel > 2 && vt_chance (1, 300);
        if (many)
            k = vt_pick ({ 9, 17, 40, 300, 1024 });
        for (int i = 0; i < k; i++) {
            size_t left = n - off;
            size_t e = i == k - 1         ? left
                       : many             ? vt_u (2 * left / (k - i) + 1)
                       : vt_chance (1, 4) ? 0
                                          : vt_u (left + 1);
            v.push_back ({ b.data () + off, e });
            off += e;
        }
        copy = v;
        memset (b.data (), 0x3c, n + 16);
    }
    void intact (size_t used) const
    {
        VT_CHECK (v.size () == copy.size () &&
                      !memcmp (v.data (), copy.data (),
                               v.size () * sizeof (struct iovec)),
                  "vector: the caller's vector was modified");
        for (size_t i = used; i < n + 16; i++)
            VT_CHECK (b[i] == 0x3c, "overrun: bytes after the transfer were "
                                    "written");
    }
};

#endif
