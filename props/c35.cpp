// VARIANTS default:800000:5000000 heap:100000:600000 noslice:80000:500000 asan:30000:150000
#include "cio.hpp"
#include "link.hpp"

const char *prop_id = "C35";
const char *prop_rule =
    "A case is 1-2 tasks, each using a chain of 0-4 buffering, pass-through and "
    "byte-changing layers over an endpoint written by the program, whose every "
    "answer (part of the data, would-block, end, any error) is generated, through "
    "plain, vectored, exact, datagram, peek, flush and descriptor calls, or "
    "splicing two such chains; null layers and missing endpoints occur. "
    "Non-trivial: at least one answer that was not plain data, and data moved. "
    "Distinct by the executed trace.";

enum { A_NONE, A_DATA, A_AGAIN, A_END, A_ERR };

struct S;
struct End {
    S *s;
    int id, salt[2], answers = 0;
    int key = 0; /* what the layers above do to the bytes */
    uint64_t supplied = 0, sunk = 0, limit = 0; /* limit: may be written */
    bool ended = false, sticky = false;  /* reading */
    int enderr = 0;                      /* 0: end of stream */
    bool werr = false;                   /* a write or flush failed */
    bool flushed = true;                 /* since the last write */
    int calls = 0, dgrams = 0;
    int last = A_NONE, lasterr = 0;      /* last answer in the current call */
    bool flush_ok = false;
    int rfd = -1, wfd = -1;
    /* the datagram under way */
    size_t dlen = 0;
    uint64_t dsent = 0, dgot = 0;
    unsigned char *dexp = NULL;
    size_t dexpn = 0;
    uint64_t *daddr = NULL;
};
struct S {
    HevTask *t;
    End e[2];
    bool done = false, pend = false;
    int agains = 0, row = 0, budget;
    bool use_y, aborted = false;
    bool splicing = false;
};
static std::vector<S *> ss;
static int fin, made, odd, moved, calls, live, waits;

static unsigned char
byte_of (const End *e, int dir, uint64_t pos)
{
    return (unsigned char)(vt_hash (0x71 + e->salt[dir], pos >> 3) >>
                           (8 * (pos & 7)));
}

static size_t
total (const struct iovec *v, int n)
{
    size_t t = 0;
    for (int i = 0; i < n; i++)
        t += v[i].iov_len;
    return t;
}

static long
again (End *e, int *err)
{
    e->s->agains++;
    e->s->pend = true;
    odd++;
    e->last = A_AGAIN;
    VT_CHECK (++e->s->row < 200, "busy: the endpoint was asked again and again "
                                 "instead of waiting");
    *err = EAGAIN;
    return -1;
}

static long
fails (End *e, int code, int *err)
{
    odd++;
    e->last = A_ERR;
    e->lasterr = code;
    *err = code;
    vt_log ("    endpoint %d fails with %d", e->id, code);
    return -1;
}

/* program-written endpoint */
static long
answer (void *data, int op, const struct iovec *v, int n, long arg, void *addr,
        int *err)
{
    End *e = (End *)data;
    S *s = e->s;
    size_t t = total (v, op <= SH_WRITE_DGRAM ? n : 0);
    bool may = s->agains < s->budget;

    e->calls++;
    if (e->calls > 20000)
        vt_fail ("busy: the endpoint is called without end");
    /* what is left there from earlier is nobody's business */
    if (vt_chance (1, 8))
        *err = vt_bool () ? EAGAIN : EIO;
    switch (op) {
    case SH_READ: {
        if (t == 0)
            return 0;
        if (may && vt_chance (1, 4))
            return again (e, err);
        s->row = 0;
        if (e->ended) {
            if (!e->sticky)
                e->ended = false;
            odd++;
            if (e->enderr)
                return fails (e, e->enderr, err);
            e->last = A_END;
            vt_log ("    endpoint %d is at its end", e->id);
            return 0;
        }
        size_t k = vt_chance (1, 3) ? t : t - vt_u (t);
        if (k > 3000)
            k = 3000;
        size_t left = k;
        for (int i = 0; i < n && left; i++) {
            size_t m = v[i].iov_len < left ? v[i].iov_len : left;
            unsigned char *b = (unsigned char *)v[i].iov_base;
            for (size_t j = 0; j < m; j++)
                b[j] = byte_of (e, 0, e->supplied++) ^ e->key;
            left -= m;
        }
        e->last = A_DATA;
        moved++;
        vt_log ("    endpoint %d gives %zu of %zu", e->id, k, t);
        if (vt_chance (1, 12) || ++e->answers % 300 == 0) {
            e->ended = true;
            e->sticky = s->splicing || vt_bool ();
            e->enderr = vt_chance (1, 3) ? vt_errno () : 0;
        }
        return k;
    }
    case SH_WRITE: {
        if (t == 0)
            return 0;
        if (may && vt_chance (1, 4))
            return again (e, err);
        s->row = 0;
        if (vt_chance (1, 40)) {
            e->werr = true;
            return fails (e, vt_errno (), err);
        }
        VT_CHECK (e->sunk + t <= e->limit,
                  "invented: %zu bytes arrive after %llu, only %llu were "
                  "written", t, (unsigned long long)e->sunk,
                  (unsigned long long)e->limit);
        size_t k = vt_chance (1, 3) ? t : t - vt_u (t);
        uint64_t pos = e->sunk;
        for (int i = 0; i < n; i++) {
            const unsigned char *b = (const unsigned char *)v[i].iov_base;
            for (size_t j = 0; j < v[i].iov_len; j++, pos++)
                VT_CHECK (b[j] == (unsigned char)(byte_of (e, 1, pos) ^ e->key),
                          "data: wrong byte at offset %llu of those written",
                          (unsigned long long)pos);
        }
        e->sunk += k;
        e->last = A_DATA;
        e->flushed = false;
        moved++;
        vt_log ("    endpoint %d takes %zu of %zu", e->id, k, t);
        return k;
    }
    case SH_READ_DGRAM: {
        if (may && vt_chance (1, 4))
            return again (e, err);
        s->row = 0;
        if (vt_chance (1, 12))
            return fails (e, vt_errno (), err);
        size_t len = vt_chance (1, 8) ? 0 : vt_range (1, 300);
        size_t k = len < t ? len : t, left = k;
        uint64_t id = ++e->dgot;
        size_t off = 0;
        for (int i = 0; i < n && left; i++) {
            size_t m = v[i].iov_len < left ? v[i].iov_len : left;
            unsigned char *b = (unsigned char *)v[i].iov_base;
            for (size_t j = 0; j < m; j++)
                b[j] = (unsigned char)vt_hash (id, off++);
            left -= m;
        }
        if (addr)
            *(uint64_t *)addr = vt_hash (id, 99);
        e->last = A_DATA;
        e->dlen = k;
        moved++;
        e->dgrams++;
        return k;
    }
    case SH_WRITE_DGRAM: {
        VT_CHECK (t == e->dexpn, "boundary: a datagram of %zu arrives as %zu",
                  e->dexpn, t);
        size_t off = 0;
        for (int i = 0; i < n; i++) {
            VT_CHECK (!v[i].iov_len ||
                          !memcmp (v[i].iov_base, e->dexp + off, v[i].iov_len),
                      "data: datagram differs");
            off += v[i].iov_len;
        }
        VT_CHECK (!addr == !e->daddr && (!addr || *(uint64_t *)addr == *e->daddr),
                  "address: not the one given");
        if (may && vt_chance (1, 4))
            return again (e, err);
        s->row = 0;
        if (vt_chance (1, 12))
            return fails (e, vt_errno (), err);
        e->last = A_DATA;
        e->dlen = t && vt_chance (1, 4) ? vt_u (t + 1) : t;
        moved++;
        e->dgrams++;
        return e->dlen;
    }
    case SH_FLUSH:
        if (may && vt_chance (1, 6))
            return again (e, err);
        s->row = 0;
        if (vt_chance (1, 40)) {
            e->werr = true;
            return fails (e, vt_errno (), err);
        }
        e->last = A_DATA;
        e->flush_ok = true;
        e->flushed = true;
        return 0;
    case SH_GET_FD:
        return arg ? e->wfd : e->rfd;
    }
    vt_fail ("call: unknown request %d", n);
}

static int
yielder (HevTaskYieldType type, void *data)
{
    S *s = (S *)data;

    VT_CHECK (type == HEV_TASK_WAITIO || s->splicing,
              "yielder: called for another reason");
    if (type == HEV_TASK_WAITIO) {
        VT_CHECK (s->pend, "yielder: called although nothing would block");
        s->row = 0;
    }
    waits++;
    if (vt_chance (1, 30)) {
        s->aborted = true;
        return 1;
    }
    hev_task_yield (type);
    return 0;
}

static void
helper (void)
{
    while (live) {
        hev_task_sleep (1);
        for (S *s : ss) {
            if (s->done || hev_task_get_state (s->t) != HEV_TASK_WAITING)
                continue;
            VT_CHECK (s->pend, "stall: a task waits although its endpoint did "
                               "not answer that it would block");
            if (vt_chance (2, 3)) {
                s->pend = false;
                s->row = 0;
                waits++;
                hev_task_wakeup (s->t);
            }
        }
    }
}

static size_t
gen_size (void)
{
    switch (vt_weight ({ 2, 3, 4, 1 })) {
    case 0:
        return 0;
    case 1:
        return vt_range (1, 4);
    case 2:
        return vt_range (1, 64);
    }
    return vt_range (64, 3000);
}

struct Chain {
    Cio *top;
    int buffers = 0, mixes = 0;
    size_t wspace = 0;
    bool top_rbuf = false, top_buffer = false;
    bool none = false, null = false;
    size_t scale = 16;
};

static Chain
make (S *s, int k, bool plain_end)
{
    End *e = &s->e[k];
    Chain c;
    int nl = vt_weight ({ 2, 4, 3, 2, 1 });

    e->s = s;
    c.top = NULL;
    switch (plain_end ? 0 : vt_weight ({ 12, 1, 1 })) {
    case 0:
        c.top = sh_end_new (answer, e, &fin);
        made++;
        break;
    case 1:
        c.null = true;
        c.top = hev_task_cio_null_new ();
        break;
    case 2:
        c.none = true;
        if (!nl)
            nl = 1;
        break;
    }
    if (!c.top && !c.none)
        vt_fail ("create: endpoint creation failed");
    for (int i = 0; i < nl; i++) {
        Cio *l;
        c.top_buffer = c.top_rbuf = false;
        switch (vt_weight ({ 4, 2, 3, plain_end ? 0 : i == nl - 1 && !c.none })) {
        default: {
            size_t r = gen_size (), w = gen_size ();
            l = hev_task_cio_buffer_new (r, w);
            if (r + w)
                c.scale = (r + w) / 2 + 1;
            c.buffers++;
            c.wspace += w;
            c.top_rbuf = r;
            c.top_buffer = true;
            vt_log ("layer: buffers of %zu and %zu", r, w);
            break;
        }
        case 1:
            l = sh_layer_new (&fin);
            made++;
            vt_log ("layer: pass-through");
            break;
        case 2: {
            int key = vt_range (0, 255);
            size_t cap = vt_chance (1, 2) ? 1 << 20 : gen_size () + 1;
            l = sh_mix_new (key, cap, &fin);
            made++;
            c.mixes++;
            e->key ^= key;
            vt_log ("layer: changing, at most %zu", cap);
            break;
        }
        case 3:
            l = hev_task_cio_null_new ();
            c.null = true;
            vt_log ("layer: null");
            break;
        }
        if (!l)
            vt_fail ("create: layer creation failed");
        c.top = c.top ? hev_task_cio_push (l, c.top) : l;
    }
    return c;
}

static size_t
gen_n (const Chain &c)
{
    switch (vt_weight ({ 5, 3, 1, 1 })) {
    case 0:
        return vt_range (1, 2 * c.scale);
    case 1:
        return vt_pick ({ 1, 2, 3, 7, 8 });
    case 2:
        return vt_bool () ? c.scale * 5 : vt_range (1, 3000);
    }
    return 0;
}

static HevTaskIOYielder
begin (S *s, End *e)
{
    e->last = A_NONE;
    e->flush_ok = false;
    s->pend = false;
    s->row = 0;
    s->aborted = false;
    calls++;
    return s->use_y && vt_bool () ? yielder : NULL;
}

static void
failed (End *e, const Chain &c, ssize_t r, const char *what)
{
    VT_CHECK (r == -1, "result: %s gave %zd", what, r);
    if (c.none)
        return;
    VT_CHECK (e->last == A_ERR, "result: %s failed although the endpoint did "
                                "not", what);
    VT_CHECK (sh_cio_err (c.top) == e->lasterr,
              "error: %s reports %d, the endpoint said %d", what,
              sh_cio_err (c.top), e->lasterr);
}

/* false: the position in the stream is lost */
static bool
do_read (S *s, const Chain &c, uint64_t *got)
{
    End *e = &s->e[0];
    bool exact = vt_bool (), vec = vt_bool ();
    size_t n = gen_n (c);
    Vec v (n, vec ? 6 : 1);
    HevTaskIOYielder y = begin (s, e);
    ssize_t r;

    vt_log ("  read%s%s of %zu in %zu parts", vec ? "v" : "",
            exact ? " exact" : "", n, v.v.size ());
    if (vec)
        r = exact ? hev_task_cio_readv_exact (c.top, v.v.data (), v.v.size (),
                                              y, s)
                  : hev_task_cio_readv (c.top, v.v.data (), v.v.size (), y, s);
    else
        r = exact ? hev_task_cio_read_exact (c.top, v.b.data (), n, y, s)
                  : hev_task_cio_read (c.top, v.b.data (), n, y, s);
    vt_log ("  gives %zd", r);
    vt_sig (r);
    VT_CHECK (r <= (ssize_t)n, "result: read gave %zd of %zu", r, n);
    if (s->aborted) {
        VT_CHECK (r == -2, "result: an aborted read gave %zd", r);
        if (!exact)
            v.intact (0);
        return !exact;
    }
    VT_CHECK (r != -2, "result: a read that was not aborted says so");
    if (c.null) {
        VT_CHECK (r == 0 && !s->pend, "result: the null layer gave %zd", r);
        v.intact (0);
        return true;
    }
    if (r < 0) {
        failed (e, c, r, "read");
        v.intact (0);
        if (!c.none)
            VT_CHECK (*got == e->supplied, "order: the error came before the "
                      "data received earlier");
        return true;
    }
    if (n == 0) {
        VT_CHECK (r == 0, "result: an empty read gave %zd", r);
        return true;
    }
    VT_CHECK (!c.none, "result: a read without endpoint gave %zd", r);
    v.intact (r);
    VT_CHECK (*got + r <= e->supplied, "invented: %zd bytes read at %llu, the "
              "endpoint gave %llu", r, (unsigned long long)*got,
              (unsigned long long)e->supplied);
    for (ssize_t i = 0; i < r; i++)
        VT_CHECK (v.b[i] == byte_of (e, 0, *got + i),
                  "data: wrong byte at offset %llu of those read",
                  (unsigned long long)(*got + i));
    *got += r;
    if (r == 0)
        VT_CHECK (e->last == A_END && *got == e->supplied,
                  "result: an end that is none");
    if (!exact && !vec && r > 0 && !c.buffers)
        VT_CHECK (e->last == A_DATA && *got == e->supplied,
                  "result: read gave %zd, not the endpoint's answer", r);
    if (exact && r < (ssize_t)n)
        VT_CHECK (e->last == A_END || e->last == A_ERR,
                  "result: an exact read gave %zd of %zu", r, n);
    return true;
}

static bool
do_write (S *s, const Chain &c, uint64_t *put)
{
    End *e = &s->e[0];
    bool exact = vt_bool (), vec = vt_bool ();
    size_t n = gen_n (c);
    Vec v (n, vec ? 6 : 1);
    HevTaskIOYielder y = begin (s, e);
    uint64_t sunk = e->sunk;
    ssize_t r;

    for (size_t i = 0; i < n; i++)
        v.b[i] = byte_of (e, 1, *put + i);
    std::vector<unsigned char> keep = v.b;
    e->limit = *put + n;
    vt_log ("  write%s%s of %zu in %zu parts", vec ? "v" : "",
            exact ? " exact" : "", n, v.v.size ());
    if (vec)
        r = exact ? hev_task_cio_writev_exact (c.top, v.v.data (), v.v.size (),
                                               y, s)
                  : hev_task_cio_writev (c.top, v.v.data (), v.v.size (), y, s);
    else
        r = exact ? hev_task_cio_write_exact (c.top, v.b.data (), n, y, s)
                  : hev_task_cio_write (c.top, v.b.data (), n, y, s);
    vt_log ("  gives %zd", r);
    vt_sig (r);
    VT_CHECK (v.b == keep && !memcmp (v.v.data (), v.copy.data (),
                                      v.v.size () * sizeof (struct iovec)),
              "vector: the caller's data was modified");
    VT_CHECK (r <= (ssize_t)n, "result: write gave %zd of %zu", r, n);
    if (s->aborted) {
        VT_CHECK (r == -2, "result: an aborted write gave %zd", r);
        e->limit = *put;
        return !exact;
    }
    VT_CHECK (r != -2, "result: a write that was not aborted says so");
    if (c.null && !c.buffers) {
        VT_CHECK (r == (ssize_t)n || (!exact && c.mixes && r > 0),
                  "result: the null layer took %zd of %zu", r, n);
        return true;
    }
    if (r < 0) {
        if (!c.null)
            failed (e, c, r, "write");
        r = 0;
    } else if (!c.null && !c.none && n) {
        VT_CHECK (r > 0, "result: nothing written");
        if (exact && r < (ssize_t)n)
            VT_CHECK (e->last == A_ERR, "result: an exact write took %zd of %zu",
                      r, n);
        if (!c.buffers)
            VT_CHECK (e->sunk == *put + r, "result: write says %zd, the "
                      "endpoint took %llu", r,
                      (unsigned long long)(e->sunk - sunk));
    }
    *put += r;
    e->limit = *put;
    VT_CHECK (e->sunk <= *put, "result: write says %zd, but more arrived", r);
    VT_CHECK (*put - e->sunk <= c.wspace || c.null || c.none,
              "lost: %llu bytes are missing, the layers hold %zu",
              (unsigned long long)(*put - e->sunk), c.wspace);
    return true;
}

static bool
do_flush (S *s, const Chain &c, uint64_t put)
{
    End *e = &s->e[0];
    HevTaskIOYielder y = begin (s, e);
    int r;

    vt_log ("  flush");
    r = hev_task_cio_flush (c.top, y, s);
    vt_log ("  gives %d", r);
    vt_sig (r);
    if (s->aborted) {
        VT_CHECK (r == -2, "result: an aborted flush gave %d", r);
        return false;
    }
    if (c.null) {
        VT_CHECK (r == 0 && !s->pend, "result: flush to null gave %d", r);
        return true;
    }
    if (r < 0) {
        failed (e, c, r, "flush");
        return false;
    }
    VT_CHECK (r == 0, "result: flush gave %d", r);
    VT_CHECK (!c.none, "result: flush without endpoint succeeded");
    VT_CHECK (e->flush_ok && e->flushed, "flush: the endpoint was not flushed");
    VT_CHECK (e->sunk == put, "flush: %llu bytes written, %llu arrived",
              (unsigned long long)put, (unsigned long long)e->sunk);
    return true;
}

static void
do_peek (S *s, const Chain &c, uint64_t got)
{
    static unsigned char b[40000];
    End *e = &s->e[0];
    size_t n = gen_n (c);
    ssize_t r;
    int w = waits;

    begin (s, e);
    memset (b, 0x3c, n + 64);
    if (vt_bool ()) {
        r = hev_task_cio_buffer_peek (c.top, b, n);
        for (size_t i = r < 0 ? 0 : r; i < n + 64; i++)
            VT_CHECK (b[i] == 0x3c, "overrun: peek wrote past its result");
    } else {
        struct iovec v[2];
        size_t t = 0;
        r = hev_task_cio_buffer_peekv (c.top, v);
        VT_CHECK (r <= 2, "result: peek gave %zd elements", r);
        for (int i = 0; i < r; i++) {
            VT_CHECK (t + v[i].iov_len <= sizeof (b), "result: peek exposes "
                      "%zu bytes", v[i].iov_len);
            memcpy (b + t, v[i].iov_base, v[i].iov_len);
            t += v[i].iov_len;
        }
        if (r >= 0)
            r = t;
        n = sizeof (b);
    }
    vt_log ("  peek gives %zd", r);
    vt_sig (r);
    VT_CHECK (waits == w, "stall: a peek waited");
    if (!c.top_rbuf) {
        VT_CHECK (r == -1, "result: peek without a buffer gave %zd", r);
        return;
    }
    if (c.null || c.none) {
        VT_CHECK (r == 0, "result: peek at nothing gave %zd", r);
        return;
    }
    VT_CHECK (r >= 0 && r <= (ssize_t)n && got + r <= e->supplied,
              "result: peek gave %zd", r);
    VT_CHECK (r > 0 || !n || got == e->supplied || e->last == A_AGAIN,
              "result: peek gave nothing although data was received");
    for (ssize_t i = 0; i < r; i++)
        VT_CHECK (b[i] == byte_of (e, 0, got + i), "data: peek differs");
}

static void
do_dgram (S *s, const Chain &c)
{
    End *e = &s->e[0];
    bool wr = vt_bool (), vec = vt_bool (), with = vt_bool ();
    size_t n = vt_chance (1, 8) ? 0 : vt_range (1, 300);
    Vec v (n, vec ? 6 : 1);
    uint64_t a = vt_hash (n, 5), a0 = a;
    void *ap = with ? &a : NULL;
    HevTaskIOYielder y = begin (s, e);
    uint64_t supplied = e->supplied, sunk = e->sunk;
    int d = e->dgrams;
    ssize_t r;

    vt_log ("  %s datagram of %zu in %zu parts", wr ? "write" : "read", n,
            v.v.size ());
    if (wr) {
        for (size_t i = 0; i < n; i++)
            v.b[i] = (unsigned char)vt_hash (77 + n, i);
        e->dexp = v.b.data ();
        e->dexpn = n;
        e->daddr = with ? &a : NULL;
        r = vec ? hev_task_cio_writev_dgram (c.top, v.v.data (), v.v.size (),
                                             ap, y, s)
                : hev_task_cio_write_dgram (c.top, v.b.data (), n, ap, y, s);
    } else {
        r = vec ? hev_task_cio_readv_dgram (c.top, v.v.data (), v.v.size (), ap,
                                            y, s)
                : hev_task_cio_read_dgram (c.top, v.b.data (), n, ap, y, s);
    }
    vt_log ("  gives %zd", r);
    vt_sig (r);
    VT_CHECK (e->supplied == supplied && e->sunk == sunk,
              "call: a datagram was treated as a stream");
    if (wr)
        VT_CHECK (a == a0, "address: modified");
    if (s->aborted) {
        VT_CHECK (r == -2 && e->dgrams == d, "result: an aborted call gave %zd",
                  r);
        return;
    }
    if (c.null) {
        VT_CHECK (r == (wr ? (ssize_t)n : 0) && !s->pend,
                  "result: the null layer gave %zd", r);
        return;
    }
    if (r < 0) {
        failed (e, c, r, "datagram call");
        VT_CHECK (e->dgrams == d, "lost: the failed call moved a datagram");
        return;
    }
    VT_CHECK (!c.none && e->dgrams == d + 1 && r == (ssize_t)e->dlen,
              "result: datagram call gave %zd, the endpoint said %zu for %d",
              r, e->dlen, e->dgrams - d);
    if (wr)
        return;
    v.intact (r);
    for (ssize_t i = 0; i < r; i++)
        VT_CHECK (v.b[i] == (unsigned char)vt_hash (e->dgot, i),
                  "data: datagram differs");
    if (with)
        VT_CHECK (a == vt_hash (e->dgot, 99), "address: not the sender's");
}

static void
body (S *s)
{
    Chain c = make (s, 0, false);
    End *e = &s->e[0];
    uint64_t got = 0, put = 0;
    bool rd = true, wr = true;
    int n = vt_range (1, 24);

    for (int i = 0; i < n; i++) {
        switch (vt_weight ({ rd ? 6 : 0, wr ? 6 : 0, wr ? 3 : 0,
                             rd && c.top_buffer ? 2 : 0, 2, 1, 1 })) {
        case 0:
            if (rd)
                rd = do_read (s, c, &got);
            break;
        case 1:
            wr = do_write (s, c, &put);
            break;
        case 2:
            do_flush (s, c, put);
            break;
        case 3:
            do_peek (s, c, got);
            break;
        case 4:
            do_dgram (s, c);
            break;
        case 5:
            e->rfd = vt_range (-1, 900);
            e->wfd = vt_range (-1, 900);
            for (int d = 0; d < 2; d++) {
                int r = hev_task_cio_get_fd (c.top, d);
                int x = c.null || c.none ? -1 : d ? e->wfd : e->rfd;
                VT_CHECK (r == x, "descriptor: got %d, the endpoint has %d", r,
                          x);
            }
            break;
        case 6:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        }
    }
    if (wr && !c.none && !c.null)
        for (int i = 0; i < 50; i++)
            if (do_flush (s, c, put)) {
                VT_CHECK (e->sunk == put, "lost: %llu bytes written, %llu "
                          "arrived", (unsigned long long)put,
                          (unsigned long long)e->sunk);
                break;
            }
    if (rd && !c.none && !c.null) {
        /* everything it gave is read before its end */
        uint64_t end;
        e->ended = e->sticky = true;
        e->enderr = 0;
        end = e->supplied;
        for (int i = 0; rd && i < 3000 && e->last != A_END; i++)
            rd = do_read (s, c, &got);
        if (rd && e->last == A_END) {
            while (rd && got < end) {
                uint64_t g = got;
                rd = do_read (s, c, &got);
                if (got == g && !rd)
                    break;
            }
            VT_CHECK (!rd || (got == end && e->supplied == end),
                      "lost: %llu bytes given, %llu read",
                      (unsigned long long)end, (unsigned long long)got);
        }
    }
    sh_unref (c.top);
    s->done = true;
    live--;
}

/* what one endpoint gives is what the other one gets */
static long
crossed (void *data, int op, const struct iovec *v, int n, long arg, void *addr,
         int *err)
{
    End *e = (End *)data;
    End *o = &e->s->e[e == &e->s->e[0]];

    e->limit = o->supplied;
    return answer (data, op, v, n, arg, addr, err);
}

static void
body_splice (S *s)
{
    Chain c[2];
    size_t size = vt_chance (1, 6) ? vt_range (200, 8000) : vt_range (1, 100);
    HevTaskIOYielder y;

    s->splicing = true;
    for (int k = 0; k < 2; k++) {
        End *e = &s->e[k];
        int nl = vt_weight ({ 3, 4, 2, 1 });

        e->s = s;
        c[k].top = sh_end_new (crossed, e, &fin);
        made++;
        for (int i = 0; i < nl; i++) {
            Cio *l;
            if (vt_weight ({ 2, 1 })) {
                int key = vt_range (0, 255);
                l = sh_mix_new (key, vt_bool () ? 1 << 20 : gen_size () + 1,
                                &fin);
                made++;
                e->key ^= key;
            } else {
                l = hev_task_cio_buffer_new (gen_size (), gen_size ());
            }
            c[k].top = hev_task_cio_push (l, c[k].top);
        }
    }
    y = begin (s, &s->e[0]);
    begin (s, &s->e[1]);
    vt_log ("  splice with %zu", size);
    hev_task_cio_splice (c[0].top, c[1].top, size, y, s);
    vt_log ("  splice returns");
    bool ok = s->aborted;
    for (int k = 0; k < 2; k++) {
        End *a = &s->e[k], *b = &s->e[!k];
        vt_sig (a->supplied);
        vt_sig (b->sunk);
        ok |= b->werr;
        ok |= a->ended && b->sunk == a->supplied && b->flushed;
    }
    VT_CHECK (ok, "lost: splice ended although no direction was through; %llu "
              "of %llu and %llu of %llu arrived",
              (unsigned long long)s->e[1].sunk,
              (unsigned long long)s->e[0].supplied,
              (unsigned long long)s->e[0].sunk,
              (unsigned long long)s->e[1].supplied);
    sh_unref (c[0].top);
    sh_unref (c[1].top);
    s->done = true;
    live--;
}

void
prop_case (void)
{
    int n = vt_weight ({ 5, 2 }) + 1;

    ts_clock ();
    vos_poll_limit = 100000;
    ts_env_clear ();
    ss.clear ();
    fin = made = odd = moved = calls = waits = 0;
    live = n;
    ts_init ();
    for (int i = 0; i < n; i++) {
        S *s = new S;
        bool sp = vt_chance (1, 4);
        for (int k = 0; k < 2; k++) {
            s->e[k].id = 2 * i + k;
            /* spliced: what one gives the other one gets */
            s->e[k].salt[0] = 4 * i + 2 * k;
            s->e[k].salt[1] = sp ? 4 * i + 2 * !k : 4 * i + 2 * k + 1;
        }
        s->budget = vt_range (0, 120);
        s->use_y = vt_chance (1, 3);
        ss.push_back (s);
        s->t = ts_go ([=] { sp ? body_splice (s) : body (s); });
    }
    ts_go (helper);
    ts_run ();
    VT_CHECK (!live, "stall: a task did not finish");
    VT_CHECK (fin == made, "destroyed: %d of %d layers", fin, made);
    ts_fini ();
    for (S *s : ss)
        delete s;
    if (odd && moved)
        vt_nontrivial ();
    vt_label ("calls", calls);
    vt_label ("waits", waits);
    vt_label ("data answers", moved);
    vt_label ("other answers", odd);
    vt_sample ("tasks=%d calls=%d data=%d other=%d waits=%d", n, calls, moved,
               odd, waits);
}
