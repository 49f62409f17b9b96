// VARIANTS default:600000:4000000 asan:60000:300000
#include "tree.hpp"
#include "ts.hpp"
#include <algorithm>

const char *prop_id = "C33";
const char *prop_rule =
    "A case is a generated history of insertions (random, ascending, descending, "
    "equal keys on either side), removals and replacements on the ordered tree, "
    "of additions and removals on the list, or of tasks going to sleep and being "
    "woken early, which use both. Removed elements are overwritten. "
    "Non-trivial: at least 20 elements were held and 5 removed. Distinct by the "
    "executed history.";

struct E {
    int id;
    long key;
};
static std::vector<E> m; /* model, in order */
static std::vector<int> freeid;
static void *t;
static bool cached;
static int most, removed;

static void
check_tree (bool full)
{
    int n = m.size (), lim = 0;

    VT_CHECK (sht_first (t) == (n ? m[0].id : -1), "first: the tree's first "
              "element is %d", sht_first (t));
    VT_CHECK (sht_last (t) == (n ? m[n - 1].id : -1), "last: the tree's last "
              "element is %d", sht_last (t));
    if (cached)
        VT_CHECK (sht_cached_first (t) == (n ? m[0].id : -1),
                  "first: the remembered first element is wrong");
    if (!full)
        return;
    int at = sht_first (t);
    for (int i = 0; i < n; i++) {
        VT_CHECK (at == m[i].id, "order: element %d of %d is %d, not %d", i, n,
                  at, m[i].id);
        at = sht_next (t, at);
    }
    VT_CHECK (at == -1, "order: something follows the last element");
    at = sht_last (t);
    for (int i = n; i-- > 0;) {
        VT_CHECK (at == m[i].id, "reverse: element %d of %d is wrong", i, n);
        at = sht_prev (t, at);
    }
    VT_CHECK (at == -1, "reverse: something precedes the first element");
    int d = sht_depth (t);
    VT_CHECK (d >= 0, "links: the tree's links do not agree");
    /* at most twice the logarithm */
    while ((1 << lim) < n + 1)
        lim++;
    VT_CHECK (d <= 2 * lim, "balance: depth %d with %d elements", d, n);
}

static void
insert (long key, bool after)
{
    if (freeid.empty ())
        return;
    int id = freeid.back ();
    freeid.pop_back ();
    auto less = [] (const E &a, const E &b) { return a.key < b.key; };
    E e = { id, key };
    auto it = after ? std::upper_bound (m.begin (), m.end (), e, less)
                    : std::lower_bound (m.begin (), m.end (), e, less);
    m.insert (it, e);
    sht_insert (t, id, key, after);
    vt_log ("insert %d key %ld %s", id, key, after ? "after" : "before");
    vt_sig (key * 2 + after);
    most = std::max (most, (int)m.size ());
}

static void
erase (size_t i)
{
    vt_log ("erase %d", m[i].id);
    sht_erase (t, m[i].id);
    freeid.push_back (m[i].id);
    m.erase (m.begin () + i);
    removed++;
    vt_sig (i + 100000);
}

static void
tree (void)
{
    int len = vt_range (1, 60), range = vt_chance (1, 3) ? 4 : 100000;
    bool big = vt_chance (1, 6);

    cached = vt_bool ();
    t = sht_new (cached);
    m.clear ();
    freeid.clear ();
    /* the order of addresses is not that of the keys */
    for (int i = 0; i < 1000; i++)
        freeid.push_back ((i * 389) % 1000);
    for (int i = 0; i < len; i++) {
        switch (vt_weight ({ 6, 4, 2, 2, 2 })) {
        case 0:
            insert (vt_u (range), vt_bool ());
            break;
        case 1:
            if (!m.empty ())
                erase (vt_u (m.size ()));
            break;
        case 2:
            if (!m.empty () && !freeid.empty ()) {
                size_t k = vt_u (m.size ());
                int id = freeid.back ();
                freeid.pop_back ();
                vt_log ("replace %d by %d", m[k].id, id);
                sht_replace (t, m[k].id, id, m[k].key);
                freeid.insert (freeid.begin (), m[k].id);
                m[k].id = id;
                vt_sig (k + 200000);
            }
            break;
        case 3: { /* burst */
            int n = vt_range (2, big ? 300 : 30), how = vt_u (4);
            long k = vt_u (range);
            bool after = vt_bool ();
            for (int j = 0; j < n; j++) {
                insert (how == 0   ? k + j
                        : how == 1 ? k - j
                        : how == 2 ? k
                                   : (long)vt_u (range),
                        after);
                check_tree (!big);
            }
            break;
        }
        case 4: {
            int n = vt_range (2, big ? 300 : 30), how = vt_u (4);
            for (int j = 0; j < n && !m.empty (); j++) {
                erase (how == 0   ? 0
                       : how == 1 ? m.size () - 1
                       : how == 2 ? m.size () / 2
                                  : vt_u (m.size ()));
                check_tree (!big);
            }
            break;
        }
        }
        check_tree (true);
    }
    while (!m.empty ()) {
        erase (0);
        check_tree (m.size () < 40);
    }
    sht_free (t);
    if (most >= 20 && removed >= 5)
        vt_nontrivial ();
    vt_label ("tree elements", most);
    vt_sample ("tree ops=%d most=%d removed=%d %s", len, most, removed,
               cached ? "with first" : "plain");
}

static void
list (void)
{
    int len = vt_range (1, 150);
    void *l = shl_new ();
    std::vector<int> v;

    freeid.clear ();
    for (int i = 0; i < 400; i++)
        freeid.push_back ((i * 37) % 400);
    for (int i = 0; i < len; i++) {
        int n = vt_chance (1, 8) ? vt_range (1, 40) : 1;
        bool add = vt_weight ({ 3, 2 }) == 0;
        int how = vt_u (3);
        while (n--) {
            if (add && !freeid.empty ()) {
                int id = freeid.back ();
                freeid.pop_back ();
                shl_add (l, id);
                v.push_back (id);
                vt_log ("add %d", id);
            } else if (!add && !v.empty ()) {
                size_t k = how == 0   ? 0
                           : how == 1 ? v.size () - 1
                                      : vt_u (v.size ());
                vt_log ("delete %d", v[k]);
                shl_del (l, v[k]);
                freeid.insert (freeid.begin (), v[k]);
                v.erase (v.begin () + k);
                removed++;
                vt_sig (k);
            }
        }
        vt_sig (v.size () + 1000);
        most = std::max (most, (int)v.size ());
        int at = shl_first (l);
        for (size_t k = 0; k < v.size (); k++) {
            VT_CHECK (at == v[k], "list order: element %zu is %d, not %d", k,
                      at, v[k]);
            at = shl_next (l, at);
        }
        VT_CHECK (at == -1, "list order: something follows the last");
        at = shl_last (l);
        for (size_t k = v.size (); k-- > 0;) {
            VT_CHECK (at == v[k], "list reverse: element %zu is wrong", k);
            at = shl_prev (l, at);
        }
        VT_CHECK (at == -1, "list reverse: something precedes the first");
    }
    shl_free (l);
    if (most >= 20 && removed >= 5)
        vt_nontrivial ();
    vt_label ("list elements", most);
    vt_sample ("list ops=%d most=%d removed=%d", len, most, removed);
}

/* the same structures at work: tasks asleep, some woken early */
static void
sleepers (void)
{
    int n = vt_range (2, 120), range = vt_chance (1, 3) ? 5 : 5000;
    std::vector<HevTask *> ts (n);
    std::vector<char> asleep (n, 0);
    std::vector<uint64_t> due (n, 0);
    int rounds = vt_range (1, 4);

    ts_env_clear ();
    ts_clock ();
    ts_init ();
    for (int i = 0; i < n; i++) {
        std::vector<unsigned> d;
        for (int r = 0; r < rounds; r++)
            d.push_back (vt_range (1, range));
        ts[i] = ts_go ([=, &asleep, &due] {
            for (unsigned ms : d) {
                unsigned left;
                due[i] = vos_now () + ms * MS;
                asleep[i] = 1;
                left = hev_task_sleep (ms);
                uint64_t now = vos_now ();
                if (asleep[i]) {
                    VT_CHECK (left == 0 && now == due[i],
                              "timer: a task due at %llu ran at %llu",
                              (unsigned long long)due[i],
                              (unsigned long long)now);
                    for (int k = 0; k < n; k++)
                        VT_CHECK (!asleep[k] || due[k] >= now,
                                  "timer: an earlier sleeper is still asleep");
                }
                asleep[i] = 0;
            }
        }, 0, TS_STACK);
        hev_task_ref (ts[i]);
        vt_sig (d[0]);
    }
    /* wake some early */
    int wakes = vt_u (40);
    for (int k = 0; k < wakes; k++) {
        int i = vt_u (n);
        uint64_t at = vos_now () + vt_u (range * rounds) * MS + MS / 2;
        ts_at (at, [=, &asleep, &ts] {
            if (asleep[i] == 1) {
                asleep[i] = 0;
                removed++;
                hev_task_wakeup (ts[i]);
            }
        });
        vt_sig (i);
    }
    ts_run ();
    ts_env_clear ();
    for (int i = 0; i < n; i++) {
        VT_CHECK (hev_task_get_state (ts[i]) == HEV_TASK_STOPPED,
                  "timer: a sleeping task was lost");
        hev_task_unref (ts[i]);
    }
    ts_fini ();
    if (n >= 20 && removed >= 5)
        vt_nontrivial ();
    vt_label ("sleepers", n);
    vt_sample ("sleepers tasks=%d rounds=%d woken early=%d", n, rounds,
               removed);
}

void
prop_case (void)
{
    most = removed = 0;
    switch (sht_have () ? vt_weight ({ 6, 3, 1 }) : 2) {
    case 0:
        vt_log ("tree");
        tree ();
        break;
    case 1:
        vt_log ("list");
        list ();
        break;
    case 2:
        sleepers ();
        break;
    }
}
