// VARIANTS slice8:90000:900000 default:18000:180000 noslice:8000:80000 asan:3000:30000
#include "ts.hpp"
#include <map>

const char *prop_id = "C24";
const char *prop_rule =
    "A case is a generated history of allocations (plain, zeroed, array), resizes "
    "and frees with sizes around every class boundary and extreme sizes, with "
    "injected exhaustion, freed in generated orders and in bursts that overflow "
    "the reuse cache, inside a task system that is then ended. Non-trivial: at "
    "least 10 blocks allocated after the first free, or the cache overflowed. "
    "Distinct by the executed history.";

struct B {
    unsigned char *p;
    size_t n;
    uint64_t tag;
};
static std::vector<B> bs;
static std::map<unsigned char *, size_t> byaddr;
static uint64_t tags;
static int allocs, frees, extremes, resizes, reused;
static int fail_in;

static int
fault (int call, int fd)
{
    (void)fd;
    if ((call == VC_malloc || call == VC_calloc || call == VC_realloc) &&
        fail_in && --fail_in == 0)
        return ENOMEM;
    return 0;
}

static unsigned char
pat (uint64_t tag, size_t i)
{
    return (unsigned char)((tag * 0x9e3779b97f4a7c15ULL >> 40) + i * 37 +
                           (i >> 6) * 11);
}

/* big blocks are only marked here and there */
static size_t
step (size_t n)
{
    return n > 6000 ? 501 : n > 300 ? 7 : 1;
}

static void
fill (B *b)
{
    size_t i;
    for (i = 0; i < b->n; i += step (b->n))
        b->p[i] = pat (b->tag, i);
    if (b->n)
        b->p[b->n - 1] = pat (b->tag, b->n - 1);
}

static void
intact (const B *b, size_t upto)
{
    size_t i;
    for (i = 0; i < upto; i += step (b->n))
        VT_CHECK (b->p[i] == pat (b->tag, i),
                  "content: byte %zu of a block of %zu changed", i, b->n);
    if (upto && upto == b->n)
        VT_CHECK (b->p[upto - 1] == pat (b->tag, upto - 1),
                  "content: last byte of a block of %zu changed", b->n);
}

static void
sane (void *v, size_t n)
{
    unsigned char *p = (unsigned char *)v;
    void *base;
    size_t size;

    VT_CHECK (((uintptr_t)p & 15) == 0, "align: block %zu not aligned", n);
    if (!n)
        return;
    VT_CHECK (vos_find_block (p, &base, &size), "wild: a block of %zu is not "
              "in allocated memory", n);
    VT_CHECK (p + n <= (unsigned char *)base + size &&
                  n <= (size_t)((unsigned char *)base + size - p),
              "short: a request for %zu bytes got %zu", n,
              (size_t)((unsigned char *)base + size - p));
    auto it = byaddr.lower_bound (p);
    if (it != byaddr.end ())
        VT_CHECK (p + n <= it->first, "overlap: two live blocks overlap");
    if (it != byaddr.begin ()) {
        --it;
        VT_CHECK (it->first + it->second <= p, "overlap: two live blocks "
                                               "overlap");
    }
}

static size_t
gen_size (void)
{
    switch (vt_weight ({ 5, 5, 3, 2 })) {
    case 0:
        return vt_range (1, 300);
    case 1: {
        size_t k = vt_range (1, 66) * 64;
        return k - 1 + vt_u (3);
    }
    case 2:
        return vt_range (1, 4200);
    }
    return vt_range (4000, 70000);
}

/* sizes that cannot be had */
static size_t
gen_extreme (void)
{
    static const size_t top[] = { SIZE_MAX,       SIZE_MAX / 2, SIZE_MAX / 2 + 1,
                                  SIZE_MAX - 4096, (size_t)1 << 36,
                                  (size_t)1 << 38, (size_t)1 << 37,
                                  (size_t)1 << 40, (size_t)3 << 38 };
    size_t n = top[vt_u (9)];
    return n > SIZE_MAX - 4200 ? n - vt_u (200) : n + vt_u (4200);
}

static void
add (void *p, size_t n)
{
    B b = { (unsigned char *)p, n, ++tags };
    sane (p, n);
    fill (&b);
    bs.push_back (b);
    if (n)
        byaddr[b.p] = n;
    allocs++;
    reused += frees > 0;
}

static void
alloc (size_t n, bool may_fail, bool must_fail)
{
    void *p;
    bool zero = false;
    size_t m = 1;

    switch (vt_u (3)) {
    case 0:
        p = hev_malloc (n);
        break;
    case 1:
        p = hev_malloc0 (n);
        zero = true;
        break;
    default:
        /* n as a product */
        m = vt_range (1, 9);
        if (must_fail && vt_bool ()) {
            /* the product overflows to something small */
            size_t a = (size_t)1 << vt_range (33, 60);
            size_t c = ((size_t)1 << (64 - __builtin_ctzll (a))) + vt_u (3);
            if (vt_bool ())
                a++;
            vt_log ("array of %zu times %zu", a, c);
            p = vt_bool () ? hev_calloc (a, c) : hev_calloc (c, a);
            VT_CHECK (!p, "overflow: an array whose size overflows was "
                          "allocated");
            extremes++;
            return;
        }
        n = n / m;
        if (!n)
            n = 1;
        p = vt_bool () ? hev_calloc (m, n) : hev_calloc (n, m);
        n = n * m;
        zero = true;
        break;
    }
    vt_log ("allocate %zu%s: %p", n, zero ? " zeroed" : "", p);
    vt_sig (n > 65536 ? 1 : n);
    if (must_fail && n > vos_alloc_max) {
        VT_CHECK (!p, "short: a request for %zu bytes succeeded", n);
        extremes++;
        return;
    }
    if (!p) {
        VT_CHECK (may_fail || !n, "result: an allocation of %zu failed", n);
        return;
    }
    sane (p, n);
    if (zero)
        for (size_t i = 0; i < n; i++)
            VT_CHECK (((unsigned char *)p)[i] == 0,
                      "zero: byte %zu of %zu is not zero", i, n);
    add (p, n);
}

static void
drop (size_t i)
{
    B b = bs[i];

    intact (&b, b.n);
    bs[i] = bs.back ();
    bs.pop_back ();
    byaddr.erase (b.p);
    vt_log ("free %zu: %p", b.n, b.p);
    hev_free (b.p);
    frees++;
}

static void
resize (size_t i, size_t n, bool may_fail, bool must_fail)
{
    B b = bs[i];
    unsigned char *p;

    byaddr.erase (b.p);
    p = (unsigned char *)hev_realloc (b.p, n);
    vt_log ("resize %zu to %zu: %p", b.n, n, p);
    vt_sig (n > 65536 ? 1 : n + 5);
    resizes++;
    if (!p) {
        if (n == 0) {
            bs[i] = bs.back ();
            bs.pop_back ();
            frees++;
            return;
        }
        VT_CHECK (may_fail || must_fail, "result: a resize to %zu failed", n);
        extremes += must_fail;
        /* the old block is still there */
        if (b.n)
            byaddr[b.p] = b.n;
        intact (&b, b.n);
        return;
    }
    VT_CHECK (!must_fail, "short: a resize to %zu bytes succeeded", n);
    bs[i].p = p;
    sane (p, n);
    for (size_t k = 0; k < b.n && k < n; k += step (b.n))
        VT_CHECK (p[k] == pat (b.tag, k), "content: byte %zu changed by a "
                  "resize from %zu to %zu", k, b.n, n);
    bs[i].n = n;
    if (n)
        byaddr[p] = n;
    fill (&bs[i]);
}

void
prop_case (void)
{
    bool big = vt_variant ()[0] != 's' && vt_chance (1, 25);
    long limit = !strcmp (vt_variant (), "slice8") ? 8 : 1000;
    int len = vt_range (1, 80);
    vos_res r0, r1;

    ts_clock ();
    bs.clear ();
    byaddr.clear ();
    tags = 0;
    allocs = frees = extremes = resizes = reused = fail_in = 0;
    vos_alloc_max = 64 << 20;
    r0 = vos_live;
    ts_init ();
    r1 = vos_live;
    vos_fault = fault;
    for (int i = 0; i < len; i++) {
        bool f = vt_chance (1, 25);
        fail_in = f ? (int)vt_range (1, 2) : 0;
        switch (vt_weight ({ 8, 6, 3, 1, 1, 1, 1 })) {
        case 0:
            alloc (gen_size (), f, false);
            break;
        case 1:
            if (!bs.empty ())
                drop (vt_u (bs.size ()));
            break;
        case 2:
            if (!bs.empty ())
                resize (vt_u (bs.size ()), gen_size (), f, false);
            break;
        case 3:
            alloc (gen_extreme (), true, true);
            break;
        case 4:
            if (!bs.empty ())
                resize (vt_u (bs.size ()), gen_extreme (), true, true);
            break;
        case 5: { /* burst of one size or several */
            int n = big ? vt_range (100, 1200) : vt_range (1, 20);
            bool same = vt_bool ();
            size_t s = gen_size ();
            if (big && s > 4200)
                s = 64;
            for (int k = 0; k < n; k++)
                alloc (same ? s : (size_t)vt_range (1, big ? 200 : 4200), f,
                       false);
            break;
        }
        case 6: { /* free many, in some order */
            int n = vt_range (1, 40), order = vt_u (3);
            if (big)
                n = bs.size ();
            for (int k = 0; k < n && !bs.empty (); k++)
                drop (order == 0   ? 0
                      : order == 1 ? bs.size () - 1
                                   : vt_u (bs.size ()));
            break;
        }
        }
        fail_in = 0;
        for (size_t k = 0; k < bs.size () && k < 5; k++) {
            B *b = &bs[(i * 5 + k) % bs.size ()];
            intact (b, b->n);
        }
    }
    vos_fault = NULL;
    if (vt_chance (1, 12) && !bs.empty ())
        resize (0, 0, true, false);
    int order = vt_u (3);
    while (!bs.empty ())
        drop (order == 0 ? 0 : order == 1 ? bs.size () - 1 : vt_u (bs.size ()));
    long kept = vos_live.blocks - r1.blocks;
    VT_CHECK (kept <= limit, "kept: %ld blocks are kept for reuse", kept);
    long most = (limit == 8 ? 256 : 4096) + 256;
    VT_CHECK (vos_live.bytes - r1.bytes <= limit * most,
              "kept: %ld bytes are kept for reuse",
              vos_live.bytes - r1.bytes);
    ts_fini ();
    VT_CHECK (vos_live.blocks == r0.blocks && vos_live.bytes == r0.bytes,
              "leak: %ld blocks, %ld bytes not returned at the end",
              vos_live.blocks - r0.blocks, vos_live.bytes - r0.bytes);
    if (reused >= 10 || kept == limit)
        vt_nontrivial ();
    vt_label ("blocks", allocs);
    vt_label ("resizes", resizes);
    vt_label ("extreme requests", extremes);
    vt_label ("full caches", kept == limit);
    vt_sample ("ops=%d blocks=%d resizes=%d extremes=%d kept=%ld", len, allocs,
               resizes, extremes, kept);
}
