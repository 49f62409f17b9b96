// VARIANTS default:15000:150000 asan:7000:70000 tsan:8000:80000 heap:3000:30000
#include "cio.hpp"
#include "fac.hpp"
#include <atomic>
#include <map>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <string>
#include <thread>

const char *prop_id = "C30";
const char *prop_rule =
    "A case is a set of tasks asking generated forward and reverse questions of "
    "a stand-in resolver that answers, fails and takes time as generated, next "
    "to tasks that keep ticking and wake callers for no reason, with the system "
    "ended at once afterwards while the helper is still on its way back; or "
    "several threads asking freely. Non-trivial: at least 2 questions. "
    "Distinct by questions, answers and delays.";

int
prop_racy (void)
{
    return 1;
}

int
prop_batch (void)
{
    return 1; /* first use matters */
}

/* ---- questions ---- */
struct Q {
    int id;
    bool rev;
    /* forward */
    bool has_node, has_service, has_hints;
    std::string node, service;
    struct addrinfo hints;
    int naddr;
    struct addrinfo *out;
    /* reverse */
    struct sockaddr_in6 sa;
    unsigned salen, nlen, slen;
    int flags;
    std::string rnode, rservice;
    /* answer */
    int ret, err;
    uint64_t hold; /* virtual ns */
    /* what happened */
    int served;
    bool delay_reply;
};
static std::vector<Q *> qs;
static std::map<std::string, Q *> by_name;
static std::map<uint32_t, Q *> by_addr;
static pthread_t task_thread;
static bool gated;

/* the resolver: 0 nothing to do, 1 a question is held, 2 answer on its way */
static std::atomic<int> state;
static std::atomic<Q *> held;
static sem_t gate;
static std::atomic<int> ended, system_no, delays;
static uint64_t release_at;
static bool release_known;
static int outstanding;

static void
hold (Q *q)
{
    if (!gated)
        return;
    if (pthread_equal (pthread_self (), task_thread))
        vt_fail ("blocking: the resolver was called on the thread of the tasks");
    system_no = ended.load ();
    if (q->hold) {
        held = q;
        state = 1;
        while (sem_wait (&gate) < 0)
            ;
    }
    state = 2;
}

static struct addrinfo *
make_list (int id, int n, const struct addrinfo *h)
{
    struct addrinfo *first = NULL;

    while (n-- > 0) {
        struct addrinfo *a = (struct addrinfo *)calloc (1, sizeof (*a) + 64);
        struct sockaddr_in *sa = (struct sockaddr_in *)(a + 1);
        a->ai_family = AF_INET;
        a->ai_socktype = h ? h->ai_socktype : 0;
        a->ai_addrlen = sizeof (*sa);
        a->ai_addr = (struct sockaddr *)sa;
        sa->sin_family = AF_INET;
        sa->sin_addr.s_addr = id * 8 + n;
        a->ai_next = first;
        first = a;
    }
    return first;
}

static void
free_list (struct addrinfo *a)
{
    while (a) {
        struct addrinfo *n = a->ai_next;
        free (a);
        a = n;
    }
}

static int
gai (const char *node, const char *service, const struct addrinfo *hints,
     struct addrinfo **res)
{
    std::string key = std::string (node ? node : "-") + "/" +
                      (service ? service : "-");
    auto i = by_name.find (key);

    if (i == by_name.end ())
        vt_fail ("arguments: the resolver is asked for %s, which nobody asked",
                 key.c_str ());
    Q *q = i->second;
    if (q->has_hints != (hints != NULL) ||
        (hints && memcmp (hints, &q->hints, sizeof (*hints))))
        vt_fail ("arguments: the resolver got other hints for %s",
                 key.c_str ());
    if (q->served++)
        vt_fail ("arguments: %s was resolved twice", key.c_str ());
    hold (q);
    if (q->ret == 0) {
        q->out = make_list (q->id, q->naddr, hints);
        *res = q->out;
    }
    errno = q->err;
    return q->ret;
}

static int
gni (const struct sockaddr *sa, unsigned len, char *node, unsigned nl,
     char *service, unsigned sl, int flags)
{
    const struct sockaddr_in6 *in = (const struct sockaddr_in6 *)sa;
    auto i = by_addr.find (in->sin6_flowinfo);

    if (i == by_addr.end ())
        vt_fail ("arguments: the resolver is asked for an unknown address");
    Q *q = i->second;
    if (len != q->salen || memcmp (sa, &q->sa, len) || nl != q->nlen ||
        sl != q->slen || flags != q->flags || !node != !q->nlen ||
        !service != !q->slen)
        vt_fail ("arguments: the resolver got other arguments for question %d",
                 q->id);
    if (q->served++)
        vt_fail ("arguments: question %d was resolved twice", q->id);
    hold (q);
    if (q->ret == 0) {
        if (node)
            snprintf (node, nl, "%s", q->rnode.c_str ());
        if (service)
            snprintf (service, sl, "%s", q->rservice.c_str ());
    }
    errno = q->err;
    return q->ret;
}

static Q *
make_q (int id)
{
    static const int codes[] = { EAI_AGAIN, EAI_FAIL,   EAI_NONAME, EAI_SERVICE,
                                 EAI_MEMORY, EAI_SYSTEM, EAI_FAMILY,
                                 EAI_BADFLAGS };
    Q *q = new Q ();

    q->id = id;
    q->rev = vt_chance (1, 3);
    q->ret = vt_chance (1, 3) ? codes[vt_u (8)] : 0;
    q->err = q->ret == EAI_SYSTEM ? (int)vt_range (1, 100) : (int)vt_u (3);
    q->hold = vt_chance (1, 3) ? 0 : vt_range (1, 20) * MS;
    if (!q->rev) {
        int k = vt_u (4);
        q->has_node = k != 1;
        q->has_service = k >= 1;
        q->node = "q" + std::to_string (id);
        if (vt_chance (1, 6))
            q->node += std::string (vt_range (1, 300), 'x');
        q->service = "s" + std::to_string (id);
        q->has_hints = vt_bool ();
        q->hints.ai_family = vt_u (3);
        q->hints.ai_socktype = vt_u (3);
        q->hints.ai_flags = vt_u (64);
        q->naddr = vt_range (1, 3);
        by_name[std::string (q->has_node ? q->node : "-") + "/" +
                (q->has_service ? q->service : "-")] = q;
    } else {
        int k = vt_u (3);
        q->sa.sin6_family = AF_INET6;
        q->sa.sin6_port = vt_u (65536);
        q->sa.sin6_flowinfo = id + 1;
        q->salen = vt_chance (1, 5) ? 12 : sizeof (q->sa);
        q->nlen = k != 1 ? vt_range (1, 80) : 0;
        q->slen = k >= 1 ? vt_range (1, 40) : 0;
        q->flags = vt_u (32);
        q->rnode = std::string (vt_range (0, 90), 'n') + std::to_string (id);
        q->rservice = std::string (vt_range (0, 50), 's') + std::to_string (id);
        by_addr[id + 1] = q;
    }
    vt_sig (q->rev * 1000 + q->ret * 7 + q->hold / MS);
    qs.push_back (q);
    return q;
}

static void
ask (Q *q)
{
    int r, e;

    errno = 0;
    if (!q->rev) {
        struct addrinfo *const mark = (struct addrinfo *)0x5a5a, *res = mark;
        /* arguments that live only as long as the call */
        std::string n = q->node, s = q->service;
        struct addrinfo h = q->hints;
        outstanding++;
        r = hev_task_dns_getaddrinfo (q->has_node ? n.c_str () : NULL,
                                      q->has_service ? s.c_str () : NULL,
                                      q->has_hints ? &h : NULL, &res);
        e = errno;
        outstanding--;
        VT_CHECK (r == q->ret, "result: question %d got %d instead of %d",
                  q->id, r, q->ret);
        if (r == 0) {
            VT_CHECK (res == q->out, "output: question %d got another's list",
                      q->id);
            int k = 0;
            for (struct addrinfo *a = res; a; a = a->ai_next, k++)
                VT_CHECK (((struct sockaddr_in *)a->ai_addr)->sin_addr.s_addr ==
                              (uint32_t)(q->id * 8 + k),
                          "output: question %d got a wrong address", q->id);
            VT_CHECK (k == q->naddr, "output: question %d got %d addresses",
                      q->id, k);
            free_list (res);
        } else {
            VT_CHECK (res == mark, "output: a failed question has a list");
        }
    } else {
        char n[200], s[200], wn[200], ws[200];
        struct sockaddr_in6 sa = q->sa;
        memset (n, 0x5a, sizeof (n));
        memset (s, 0x5a, sizeof (s));
        memset (wn, 0x5a, sizeof (wn));
        memset (ws, 0x5a, sizeof (ws));
        if (q->ret == 0 && q->nlen)
            snprintf (wn, q->nlen, "%s", q->rnode.c_str ());
        if (q->ret == 0 && q->slen)
            snprintf (ws, q->slen, "%s", q->rservice.c_str ());
        outstanding++;
        r = hev_task_dns_getnameinfo ((struct sockaddr *)&sa, q->salen,
                                      q->nlen ? n : NULL, q->nlen,
                                      q->slen ? s : NULL, q->slen, q->flags);
        e = errno;
        outstanding--;
        VT_CHECK (r == q->ret, "result: question %d got %d instead of %d",
                  q->id, r, q->ret);
        VT_CHECK (!memcmp (n, wn, sizeof (n)) && !memcmp (s, ws, sizeof (s)),
                  "output: question %d got wrong names", q->id);
    }
    if (r == EAI_SYSTEM)
        VT_CHECK (e == q->err, "error: question %d got errno %d instead of %d",
                  q->id, e, q->err);
    VT_CHECK (q->served == 1, "result: question %d was answered by nobody",
              q->id);
}

/* ---- one thread on the virtual clock ---- */
static int
external (void)
{
    return outstanding > 0 && state != 1;
}

static uint64_t
env_next (void)
{
    if (state != 1)
        return UINT64_MAX;
    if (!release_known) {
        release_known = true;
        release_at = vos_now () + held.load ()->hold;
        vt_log ("question %d is held until %llu", held.load ()->id,
                (unsigned long long)(release_at / MS));
    }
    return release_at;
}

static int
env (int idle)
{
    if (idle && state == 1 && release_known && vos_now () >= release_at) {
        release_known = false;
        vt_log ("answer at %llu", (unsigned long long)(vos_now () / MS));
        state = 2;
        held = NULL;
        sem_post (&gate);
        return 1;
    }
    return 0;
}

/* the helper dawdles after the last answer until the system has ended */
static void
other (int call, int fd, long ret)
{
    if ((call == VC_write || call == VC_send || call == VC_sendmsg ||
         call == VC_sendto || call == VC_writev) &&
        ret > 0 && delays.load () > 0 && delays.fetch_sub (1) == 1)
        for (int i = 0; i < 4000 && ended == system_no; i++)
            usleep (50);
}

static void
one_thread (void)
{
    int cycles = vt_range (1, 3), total = 0, ticks = 0, wakes = 0;

    task_thread = pthread_self ();
    gated = true;
    ts_clock ();
    vos_env = env;
    vos_env_next = env_next;
    vos_external = external;
    vos_other = other;
    state = 0;
    sem_init (&gate, 0, 0);
    release_known = false;
    for (int c = 0; c < cycles; c++) {
        bool crowd = vt_chance (1, 200);
        int nt = crowd ? vt_range (20, 300) : vt_range (1, 4), left = nt, n = 0;
        std::vector<std::vector<Q *>> plan (nt);
        std::vector<HevTask *> tasks (nt);
        std::vector<int> asking (nt);
        bool ticker = vt_chance (2, 3), nag = vt_chance (1, 2);
        std::vector<int> lead (nt);
        int piped = vt_chance (1, 3) ? (int)vt_u (nt) : -1, p[2];

        vt_log ("system %d", c);
        for (int i = 0; i < nt; i++) {
            int k = crowd ? 1 : vt_range (1, 3);
            lead[i] = vt_u (4);
            for (int j = 0; j < k; j++)
                plan[i].push_back (make_q (total++));
            n += k;
        }
        if (piped >= 0 && pipe2 (p, O_NONBLOCK) < 0)
            vt_fail ("harness: pipe");
        delays = vt_chance (3, 4) ? n : 0;
        ts_init ();
        for (int i = 0; i < nt; i++)
            tasks[i] = ts_go ([&, i] {
                HevTask *me = hev_task_self ();
                if (i == piped && hev_task_add_fd (me, p[0], POLLIN) < 0)
                    vt_fail ("harness: registration");
                if (lead[i])
                    hev_task_sleep (lead[i]);
                for (Q *q : plan[i]) {
                    vt_log ("task %d asks %d", i, q->id);
                    asking[i] = 1;
                    ask (q);
                    asking[i] = 0;
                    vt_log ("task %d has its answer at %llu", i,
                            (unsigned long long)(vos_now () / MS));
                }
                if (i == piped) {
                    char b[8];
                    /* what arrived meanwhile is still there */
                    ssize_t r = hev_task_io_read (p[0], b, 8, NULL, NULL);
                    VT_CHECK (r >= 1, "others: reading gave %zd", r);
                    hev_task_del_fd (me, p[0]);
                }
                left--;
            }, vt_range (-3, 3));
        if (ticker || piped >= 0)
            ts_go ([&] {
                uint64_t last = vos_now ();
                while (left) {
                    hev_task_sleep (1);
                    VT_CHECK (vos_now () - last <= 2 * MS,
                              "others: a ticking task waited %llu us",
                              (unsigned long long)((vos_now () - last) / 1000));
                    last = vos_now ();
                    ticks++;
                    if (piped >= 0 && write (p[1], "x", 1) < 0 &&
                        errno != EAGAIN)
                        vt_fail ("harness: write");
                }
            });
        if (nag)
            ts_go ([&] {
                for (int k = 0; left; k++) {
                    hev_task_usleep (700);
                    if (asking[k % nt]) {
                        hev_task_wakeup (tasks[k % nt]);
                        wakes++;
                    }
                }
            });
        ts_run ();
        VT_CHECK (left == 0, "lost: %d callers never came back", left);
        ts_fini ();
        ended++;
        if (piped >= 0) {
            close (p[0]);
            close (p[1]);
        }
        for (Q *q : qs)
            VT_CHECK (q->served == 1, "lost: question %d was not resolved",
                      q->id);
    }
    if (total >= 2)
        vt_nontrivial ();
    vt_label ("questions", total);
    vt_label ("ticks", ticks);
    vt_label ("needless wake-ups", wakes);
    vt_sample ("%d systems, %d questions, %d ticks, %d needless wake-ups",
               cycles, total, ticks, wakes);
}

/* ---- several threads in real time ---- */
struct Arg {
    std::vector<Fac> f;
    std::atomic<int> *done;
};

static void
many_entry (void *d)
{
    Arg *a = (Arg *)d;
    for (auto &f : a->f)
        if (fac_dns (f) < 0)
            vt_fail ("result: a question failed");
    (*a->done)++;
}

static void
many_threads (void)
{
    static std::atomic<int> go, done;
    int n = vt_range (2, 4), tasks = 0;
    std::vector<std::vector<Arg>> plan (n);
    std::vector<int> spin (n), cycles (n);
    std::vector<std::thread> th;

    gated = false;
    if (!strcmp (vt_variant (), "tsan"))
        vos_track = 0;
    vos_getaddrinfo = fac_gai;
    vos_getnameinfo = fac_gni;
    go = 0;
    done = 0;
    for (int i = 0; i < n; i++) {
        int t = vt_range (1, 3);
        spin[i] = vt_chance (1, 2) ? 0 : vt_u (5000);
        cycles[i] = vt_range (1, 3);
        for (int k = 0; k < t; k++) {
            Arg a;
            int c = vt_range (1, 4);
            a.done = &done;
            for (int j = 0; j < c; j++)
                a.f.push_back (Fac{ vt_u (1 << 20), i });
            plan[i].push_back (a);
            vt_sig (i * 100 + c);
        }
        tasks += t * cycles[i];
        vt_log ("thread %d: %d tasks, %d systems", i, t, cycles[i]);
    }
    for (int i = 0; i < n; i++)
        th.emplace_back ([&, i] {
            go.fetch_add (1, std::memory_order_relaxed);
            while (go.load (std::memory_order_relaxed) < n)
                sched_yield ();
            for (volatile int s = spin[i]; s > 0; s = s - 1)
                ;
            for (int c = 0; c < cycles[i]; c++) {
                std::vector<Arg> args = plan[i];
                if (hev_task_system_init () < 0)
                    vt_fail ("init: no system");
                for (auto &a : args) {
                    HevTask *t = hev_task_new (TS_STACK);
                    hev_task_run (t, many_entry, &a);
                }
                hev_task_system_run ();
                hev_task_system_fini ();
            }
        });
    for (auto &t : th)
        t.join ();
    VT_CHECK (done == tasks, "lost: %d of %d tasks ended", (int)done, tasks);
    vt_nontrivial ();
    vt_label ("threads", n);
    vt_sample ("%d threads, %d tasks", n, tasks);
}

void
prop_case (void)
{
    ts_env_clear ();
    for (Q *q : qs)
        delete q;
    qs.clear ();
    by_name.clear ();
    by_addr.clear ();
    outstanding = 0;
    vos_getaddrinfo = gai;
    vos_getnameinfo = gni;
    if (!strcmp (vt_variant (), "tsan") || vt_chance (1, 5))
        many_threads ();
    else
        one_thread ();
}
