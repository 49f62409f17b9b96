/* Helpers shared by the properties that run tasks. */
#ifndef TS_HPP
#define TS_HPP

#include "vt.hpp"
#include <errno.h>
#include <functional>
#include <sys/epoll.h>
#include <vector>

extern "C" {
#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-task-system.h>
#include <hev-memory-allocator.h>
#include <hev-circular-buffer.h>
#include <hev-task-call.h>
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>
#include <hev-task-mutex.h>
#include <hev-task-cond.h>
#include <hev-task-dns.h>
#include <hev-task-io-pipe.h>
#include <hev-task-io-poll.h>
#include <hev-task-io-socket.h>
}
#define MS 1000000ull
#define TS_STACK (192 * 1024)

static void
ts_entry (void *d)
{
    auto *f = (std::function<void ()> *)d;
    (*f) ();
    delete f;
}

static inline HevTask *
ts_new (int stack = TS_STACK)
{
    HevTask *t = hev_task_new (stack);
    if (!t)
        vt_fail ("create: task creation failed");
    return t;
}

static inline void
ts_start (HevTask *t, std::function<void ()> f)
{
    hev_task_run (t, ts_entry, new std::function<void ()> (std::move (f)));
}

/* start a task running f */
static inline HevTask *
ts_go (std::function<void ()> f, int prio = -1, int stack = TS_STACK)
{
    HevTask *t = ts_new (stack);
    if (prio >= 0)
        hev_task_set_priority (t, prio);
    ts_start (t, std::move (f));
    return t;
}

static int
ts_intr (void)
{
    return vt_chance (1, 3);
}

/* simulated system: virtual clock, deadlock and livelock detection */
static inline void
ts_clock (void)
{
    static const uint64_t phases[] = { 0,         1,         500000000, 999000000,
                                       999999000, 999999999, 1000,      123456789 };
    uint64_t p = phases[vt_u (8)];
    vos_virtual (1);
    vos_set_time (1000000000000ull + p);
    vos_poll_limit = 300000;
    /* signals without consequence interrupt the wait for events */
    if (vt_chance (1, 8))
        vos_intr = ts_intr;
    if (!strcmp (vt_variant (), "schedclk"))
        vos_clock_step = vt_pick ({ 0, 1, 50, 1000 });
}

static inline void
ts_init (void)
{
    if (hev_task_system_init () != 0)
        vt_fail ("init: initialisation of the system failed");
    vt_zero_later ();
}

static inline void
ts_run (void)
{
    hev_task_system_run ();
}

static inline void
ts_fini (void)
{
    hev_task_system_fini ();
}

/* timed environment: actions of the outside world at virtual times */
struct TsEnv {
    struct Ev {
        uint64_t at;
        uint64_t seq;
        std::function<void ()> f;
    };
    std::vector<Ev> q;
    uint64_t seq = 0;
};
static TsEnv ts_env;

static uint64_t
ts_env_next (void)
{
    uint64_t m = UINT64_MAX;
    for (auto &e : ts_env.q)
        if (e.at < m)
            m = e.at;
    return m;
}

static int
ts_env_run (int idle)
{
    int did = 0;
    for (;;) {
        size_t b = ts_env.q.size ();
        for (size_t i = 0; i < ts_env.q.size (); i++)
            if (ts_env.q[i].at <= vos_now () &&
                (b == ts_env.q.size () || ts_env.q[i].at < ts_env.q[b].at ||
                 (ts_env.q[i].at == ts_env.q[b].at &&
                  ts_env.q[i].seq < ts_env.q[b].seq)))
                b = i;
        if (b == ts_env.q.size ())
            return did;
        auto f = std::move (ts_env.q[b].f);
        ts_env.q.erase (ts_env.q.begin () + b);
        f ();
        did = 1;
    }
}

/* run f at virtual time `at` (from inside the event loop's poll) */
static inline void
ts_at (uint64_t at, std::function<void ()> f)
{
    vos_env = ts_env_run;
    vos_env_next = ts_env_next;
    ts_env.q.push_back ({ at, ts_env.seq++, std::move (f) });
}

static inline void
ts_env_clear (void)
{
    ts_env.q.clear ();
    ts_env.seq = 0;
}

#endif
