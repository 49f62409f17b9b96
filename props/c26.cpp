// VARIANTS default:70000:800000 asan:5000:50000
#include "ts.hpp"
#include <deque>
#include <hev-circular-buffer.h>

const char *prop_id = "C26";
const char *prop_rule =
    "A case is a generated sequence of partial writes, partial reads, looks and "
    "reference operations on one or two buffers of generated capacity, checked "
    "after every step against a queue. Non-trivial: the buffer wrapped around, "
    "or was both full and empty again. Distinct by the executed history.";

struct Buf {
    HevCircularBuffer *b;
    size_t cap;
    long refs;
    std::deque<unsigned char> q;
    uint64_t in, out; /* totals */
    bool full;
};

static unsigned char
pat (Buf *b, uint64_t i)
{
    return (unsigned char)vt_hash (b->cap * 77 + 1, i);
}

static size_t
total (struct iovec *v, int n)
{
    size_t s = 0;
    for (int i = 0; i < n; i++)
        s += v[i].iov_len;
    return s;
}

static void
inside (Buf *b, struct iovec *v, int n)
{
    for (int i = 0; i < n; i++) {
        void *base;
        size_t size;
        unsigned char *p = (unsigned char *)v[i].iov_base;

        if (!v[i].iov_len)
            continue;
        VT_CHECK (vos_find_block (p, &base, &size) &&
                      p + v[i].iov_len <= (unsigned char *)base + size,
                  "outside: a segment of %zu bytes is not inside the buffer's "
                  "memory", v[i].iov_len);
    }
}

static void
look (Buf *b)
{
    struct iovec r[3], w[3];
    int nr, nw;
    size_t at = 0;

    memset (r, 0, sizeof (r));
    memset (w, 0, sizeof (w));
    r[2].iov_base = w[2].iov_base = b;
    VT_CHECK (hev_circular_buffer_get_max_size (b->b) == b->cap,
              "size: capacity %zu, not %zu",
              hev_circular_buffer_get_max_size (b->b), b->cap);
    VT_CHECK (hev_circular_buffer_get_use_size (b->b) == b->q.size (),
              "size: %zu bytes used, not %zu",
              hev_circular_buffer_get_use_size (b->b), b->q.size ());
    nr = hev_circular_buffer_reading (b->b, r);
    nw = hev_circular_buffer_writing (b->b, w);
    VT_CHECK (nr >= 0 && nr <= 2 && nw >= 0 && nw <= 2,
              "segments: %d readable and %d writable", nr, nw);
    VT_CHECK (r[2].iov_base == b && w[2].iov_base == b,
              "segments: more than two were written");
    VT_CHECK (total (r, nr) == b->q.size (), "readable: %zu bytes, not %zu",
              total (r, nr), b->q.size ());
    VT_CHECK (total (w, nw) == b->cap - b->q.size (),
              "writable: %zu bytes, not %zu", total (w, nw),
              b->cap - b->q.size ());
    inside (b, r, nr);
    inside (b, w, nw);
    /* all segments are disjoint */
    struct iovec all[4];
    int n = 0;
    for (int i = 0; i < nr; i++)
        all[n++] = r[i];
    for (int i = 0; i < nw; i++)
        all[n++] = w[i];
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++) {
            char *a = (char *)all[i].iov_base, *c = (char *)all[j].iov_base;
            VT_CHECK (a + all[i].iov_len <= c || c + all[j].iov_len <= a ||
                          !all[i].iov_len || !all[j].iov_len,
                      "disjoint: segments overlap");
        }
    /* contents, in full for small buffers */
    for (int i = 0; i < nr; i++)
        for (size_t k = 0; k < r[i].iov_len; k++, at++) {
            if (b->q.size () > 2000 && k > 40 && k + 40 < r[i].iov_len)
                continue;
            unsigned char c = ((unsigned char *)r[i].iov_base)[k];
            VT_CHECK (c == b->q[at], "content: byte %zu of %zu is %02x, not "
                      "%02x", at, b->q.size (), c, b->q[at]);
        }
}

static size_t
amount (size_t most)
{
    if (!most)
        return 0;
    switch (vt_weight ({ 3, 2, 2, 1, 1 })) {
    case 0:
        return vt_range (1, most < 8 ? most : 8);
    case 1:
        return most;
    case 2:
        return vt_u (most + 1);
    case 3:
        return most - 1;
    }
    return 0;
}

static void read (Buf *b, bool more);

static void
write (Buf *b, bool scribble, bool more)
{
    struct iovec w[3];
    int n = hev_circular_buffer_writing (b->b, w);
    size_t most = total (w, n), k = amount (most), left = k;
    std::vector<unsigned char> put;

    VT_CHECK (most == b->cap - b->q.size (), "writable: %zu bytes, not %zu",
              most, b->cap - b->q.size ());
    /* all of the space is ours, also what is not committed */
    if (scribble)
        for (int i = 0; i < n; i++)
            memset (w[i].iov_base, 0xa5, w[i].iov_len);
    for (int i = 0; i < n && left; i++)
        for (size_t j = 0; j < w[i].iov_len && left; j++, left--) {
            unsigned char c = pat (b, b->in++);
            ((unsigned char *)w[i].iov_base)[j] = c;
            put.push_back (c);
        }
    /* consuming does not move the space already offered */
    if (more && vt_chance (1, 4))
        read (b, false);
    for (unsigned char c : put)
        b->q.push_back (c);
    hev_circular_buffer_write_finish (b->b, k);
    vt_log ("write %zu of %zu", k, most);
    vt_sig (k + 3);
}

static void
read (Buf *b, bool more)
{
    struct iovec r[3];
    int n = hev_circular_buffer_reading (b->b, r);
    size_t most = total (r, n), k = amount (most), left = k;

    VT_CHECK (most == b->q.size (), "readable: %zu bytes, not %zu", most,
              b->q.size ());
    /* nor does committing move the bytes already offered */
    if (more && vt_chance (1, 4))
        write (b, true, false);
    for (int i = 0; i < n && left; i++)
        for (size_t j = 0; j < r[i].iov_len && left; j++, left--) {
            unsigned char c = ((unsigned char *)r[i].iov_base)[j];
            VT_CHECK (c == b->q.front (), "content: read %02x, not %02x", c,
                      b->q.front ());
            b->q.pop_front ();
            b->out++;
        }
    hev_circular_buffer_read_finish (b->b, k);
    vt_log ("read %zu of %zu", k, most);
    vt_sig (k * 2 + 90000);
}

static void
refs (Buf *b)
{
    if (b->refs > 1 && vt_bool ()) {
        long k = vt_range (1, b->refs - 1);
        for (long i = 0; i < k; i++)
            hev_circular_buffer_unref (b->b);
        b->refs -= k;
        vt_log ("drop %ld references", k);
    } else {
        long k = vt_chance (1, 30) ? vt_range (65000, 66000) : vt_range (1, 4);
        vt_log ("take %ld references", k);
        for (long i = 0; i < k; i++)
            VT_CHECK (hev_circular_buffer_ref (b->b) == b->b,
                      "ref: another buffer came back");
        b->refs += k;
    }
    vt_sig (b->refs);
}

static size_t
capacity (void)
{
    switch (vt_weight ({ 4, 3, 2, 1 })) {
    case 0:
        return vt_range (0, 9);
    case 1:
        return vt_range (1, 80);
    case 2: {
        static const size_t s[] = { 16, 64, 128, 255, 256, 257, 1024, 4096 };
        return s[vt_u (8)] + vt_u (2);
    }
    }
    return vt_range (100, 70000);
}

void
prop_case (void)
{
    Buf bufs[2];
    int nb = vt_range (1, 2), len = vt_range (1, 60);
    bool sys = vt_bool (), wrapped = false, cycled = false;
    vos_res r0, r1;

    ts_clock ();
    /* the thread's plain allocator comes into being on first use */
    if (!sys)
        hev_free (hev_malloc (1));
    else { /* and goes with the first system */
        ts_init ();
        ts_fini ();
    }
    r0 = vos_live;
    if (sys)
        ts_init ();
    r1 = vos_live;
    for (int i = 0; i < nb; i++) {
        Buf *b = &bufs[i];
        b->cap = capacity ();
        b->in = b->out = 0;
        b->refs = 1;
        b->full = false;
        b->b = hev_circular_buffer_new (b->cap);
        VT_CHECK (b->b, "new: no buffer");
        vt_log ("capacity %zu", b->cap);
        vt_sig (b->cap);
        look (b);
    }
    for (int i = 0; i < len; i++) {
        Buf *b = &bufs[vt_u (nb)];
        switch (vt_weight ({ 5, 4, 1, 1 })) {
        case 0:
            write (b, vt_bool (), true);
            break;
        case 1:
            read (b, true);
            break;
        case 2:
            refs (b);
            break;
        case 3: {
            /* a capacity that cannot be had */
            size_t c = SIZE_MAX - vt_u (200);
            HevCircularBuffer *x;
            if (vt_bool ())
                c /= 2;
            x = hev_circular_buffer_new (c);
            VT_CHECK (!x, "new: a buffer of %zu bytes", c);
            break;
        }
        }
        for (int k = 0; k < nb; k++)
            look (&bufs[k]);
        if (b->q.size () == b->cap)
            b->full = true;
        if (b->cap && b->full && b->q.empty ())
            cycled = true;
        if (b->cap && b->in > b->cap)
            wrapped = true;
    }
    for (int i = 0; i < nb; i++) {
        Buf *b = &bufs[i];
        long before = vos_live.blocks;
        for (; b->refs > 1; b->refs--)
            hev_circular_buffer_unref (b->b);
        look (b);
        hev_circular_buffer_unref (b->b);
        if (!sys)
            VT_CHECK (vos_live.blocks < before, "leak: the last reference did "
                                                "not release the memory");
    }
    if (sys)
        ts_fini ();
    VT_CHECK (vos_live.blocks == r0.blocks && vos_live.bytes == r0.bytes,
              "leak: %ld blocks, %ld bytes", vos_live.blocks - r0.blocks,
              vos_live.bytes - r0.bytes);
    if (wrapped || cycled)
        vt_nontrivial ();
    vt_label ("wrapped", wrapped);
    vt_label ("full and empty again", cycled);
    vt_sample ("capacity=%zu ops=%d bytes=%llu refs=%s", bufs[0].cap, len,
               (unsigned long long)bufs[0].in, sys ? "in a system" : "alone");
    (void)r1;
}
