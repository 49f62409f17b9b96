// VARIANTS default:40000:700000 heap:40000:700000 asan:2000:50000 asanheap:2000:50000
#include "ts.hpp"
#include <fcntl.h>
#include <unistd.h>

const char *prop_id = "C02";
const char *prop_rule =
    "A case is 2-10 tasks with generated stack sizes that recurse to generated "
    "depths with generated frame sizes, fill every frame and all callee-saved "
    "registers with known values and suspend in generated ways (yield, sleep, "
    "lock, channel, pipe, wait), while others start, run and end; every frame, "
    "register and heap block is verified after each suspension. Non-trivial: at "
    "least 3 tasks suspended at depth 2 or more while another ran. Distinct by "
    "the executed trace.";

extern "C" uint64_t c02_regs (void (*fn) (void *), void *arg,
                              const uint64_t *vals);
asm (".text\n.globl c02_regs\n.type c02_regs,@function\nc02_regs:\n"
     "push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\n"
     "sub $24,%rsp\nmov %rdx,(%rsp)\nmov %rdi,%rax\nmov %rsi,%rdi\n"
     "mov (%rdx),%rbx\nmov 8(%rdx),%rbp\nmov 16(%rdx),%r12\n"
     "mov 24(%rdx),%r13\nmov 32(%rdx),%r14\nmov 40(%rdx),%r15\n"
     "call *%rax\n"
     "mov (%rsp),%rdx\nxor %eax,%eax\n"
     "cmp (%rdx),%rbx\nje 1f\nor $1,%eax\n1: cmp 8(%rdx),%rbp\nje 1f\nor $2,%eax\n"
     "1: cmp 16(%rdx),%r12\nje 1f\nor $4,%eax\n1: cmp 24(%rdx),%r13\nje 1f\nor $8,%eax\n"
     "1: cmp 32(%rdx),%r14\nje 1f\nor $16,%eax\n1: cmp 40(%rdx),%r15\nje 1f\nor $32,%eax\n"
     "1: add $24,%rsp\npop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n");

struct T {
    HevTask *h;
    int id, done = 0, live = 0;
    int stack, avail;
    uintptr_t lo = 0, hi = 0; /* used range */
    int pfd[2] = { -1, -1 };
    HevTaskChannel *c = nullptr, *c2 = nullptr;
    int waiting = 0, woken = 0;
    int ops;
    std::vector<std::pair<unsigned char *, int>> mem;
};
struct St {
    std::vector<T *> t;
    HevTaskMutex m;
    uint64_t sw = 0;
    int deep = 0, spawn = 0;
};
static St *S;

static void start (void);

static unsigned char
pat (int id, int depth, int i)
{
    return (unsigned char)(vt_hash (id * 1000 + depth, i / 8) >> ((i & 7) * 8));
}

static void
suspend (void *a)
{
    T *t = (T *)a;

    switch (vt_weight ({ 5, 3, 2, 2, 2, 2 })) {
    case 0:
        hev_task_yield (HEV_TASK_YIELD);
        break;
    case 1:
        hev_task_sleep (vt_range (1, 3));
        break;
    case 2:
        hev_task_mutex_lock (&S->m);
        hev_task_yield (HEV_TASK_YIELD);
        hev_task_mutex_unlock (&S->m);
        break;
    case 3:
        if (t->c) {
            uint64_t v = t->id, w = 0;
            hev_task_channel_write (t->c, &v, 8);
            if (hev_task_channel_read (t->c, &w, 8) != 8 || w != v + 1)
                vt_fail ("channel: wrong echo");
        }
        break;
    case 4: {
        char b;
        int fd = t->pfd[1];
        ts_at (vos_now () + vt_range (0, 3) * MS, [fd] {
            if (write (fd, "x", 1) != 1)
                vt_fail ("harness: pipe write");
        });
        if (hev_task_io_read (t->pfd[0], &b, 1, NULL, NULL) != 1 || b != 'x')
            vt_fail ("read: wrong result");
        break;
    }
    case 5:
        /* wait until another task or the timer of the world wakes it */
        t->waiting = 1;
        while (!t->woken) {
            int left = 0;
            for (T *o : S->t)
                left += o->live && !o->done && !o->waiting;
            if (!left) {
                t->woken = 1;
                break;
            }
            if (hev_task_sleep (2) == 0)
                break;
        }
        t->waiting = t->woken = 0;
        break;
    }
}

static void
used (T *t, void *p, int n)
{
    uintptr_t a = (uintptr_t)p;

    if (!t->lo || a < t->lo)
        t->lo = a;
    if (a + n > t->hi)
        t->hi = a + n;
    for (T *o : S->t)
        if (o != t && o->live && !o->done && o->lo)
            if (t->lo < o->hi && o->lo < t->hi)
                vt_fail ("overlap: stacks of tasks %d and %d overlap", t->id,
                         o->id);
    for (T *o : S->t)
        for (auto &m : o->mem)
            if ((uintptr_t)m.first < t->hi &&
                t->lo < (uintptr_t)m.first + m.second)
                vt_fail ("overlap: stack of task %d overlaps a heap block",
                         t->id);
}

static uint64_t level (T *t, int depth, int avail);

static uint64_t __attribute__ ((noinline))
frame (T *t, int depth, int avail, int sz)
{
    volatile unsigned char *f = (volatile unsigned char *)__builtin_alloca (sz);
    double d = 1.0 / (t->id + 3) + depth;
    volatile double vd = d;
    uint64_t vals[6], r = 0;

    used (t, (void *)f, sz);
    for (int i = 0; i < sz; i++)
        f[i] = pat (t->id, depth, i);
    for (int i = 0; i < 6; i++)
        vals[i] = vt_hash (t->id * 64 + depth, i);
    for (int k = 0; k < 3 && t->ops > 0; k++) {
        int op = vt_weight ({ 5, 3, 1, 2 });
        t->ops--;
        vt_sig (t->id * 8 + op);
        if (op == 0) {
            uint64_t sw = S->sw, bad;
            vt_log ("t%d suspend depth %d", t->id, depth);
            bad = c02_regs (suspend, t, vals);
            if (bad)
                vt_fail ("registers: callee-saved registers changed (%llx)",
                         (unsigned long long)bad);
            if (S->sw != sw && depth >= 2)
                S->deep++;
            S->sw++;
            for (int i = 0; i < sz; i++)
                if (f[i] != pat (t->id, depth, i))
                    vt_fail ("stack: byte %d of frame %d of task %d changed", i,
                             depth, t->id);
            if (vd != d || d != 1.0 / (t->id + 3) + depth)
                vt_fail ("locals: floating point local changed");
        } else if (op == 1) {
            r += level (t, depth + 1, avail - sz - 400);
        } else if (op == 2) {
            int n = vt_range (1, 5000);
            unsigned char *p = (unsigned char *)hev_malloc (n);
            if (!p)
                vt_fail ("memory: allocation failed");
            memset (p, t->id + 1, n);
            t->mem.push_back ({ p, n });
            used (t, (void *)f, sz);
        } else if (S->spawn > 0) {
            S->spawn--;
            start ();
        }
    }
    for (int i = 0; i < sz; i++)
        if (f[i] != pat (t->id, depth, i))
            vt_fail ("stack: byte %d of frame %d of task %d changed", i, depth,
                     t->id);
    return r + (vd == d) + depth;
}

static uint64_t __attribute__ ((noinline))
level (T *t, int depth, int avail)
{
    int sz = vt_pick ({ 16, 64, 200, 1000, 3000, 9000 });
    if (sz + 500 > avail)
        sz = 16;
    if (avail < 600)
        return 0;
    return frame (t, depth, avail, sz);
}

static void
body (T *t)
{
    t->live = 1;
    S->sw++;
    while (t->ops > 0) {
        t->ops--;
        level (t, 0, t->avail);
        for (auto &m : t->mem) {
            for (int i = 0; i < m.second; i++)
                if (m.first[i] != (unsigned char)(t->id + 1))
                    vt_fail ("heap: block of task %d changed", t->id);
            hev_free (m.first);
        }
        t->mem.clear ();
        for (T *o : S->t)
            if (o->waiting && !o->woken && vt_bool ()) {
                o->woken = 1;
                hev_task_wakeup (o->h);
            }
    }
    hev_task_del_fd (t->h, t->pfd[0]);
    close (t->pfd[0]);
    close (t->pfd[1]);
    if (t->c)
        hev_task_channel_destroy (t->c);
    t->done = 1;
}

static void
start (void)
{
    T *t = new T;
    static const int sizes[] = { 16384, 20000, 32768, 65536, 100001, 262144, -1 };

    t->id = S->t.size ();
    t->stack = sizes[vt_u (7)];
    if (!strncmp (vt_variant (), "asan", 4) && t->stack > 0)
        t->stack += 65536;
    t->avail = (t->stack < 0 ? 65536 : t->stack) - 9000;
    t->ops = vt_range (2, 40);
    if (pipe2 (t->pfd, O_NONBLOCK) < 0)
        vt_fail ("harness: pipe");
    S->t.push_back (t);
    t->h = ts_new (t->stack);
    if (vt_chance (1, 3)) {
        HevTaskChannel *p;
        if (hev_task_channel_new (&t->c, &p) < 0)
            vt_fail ("create: channel creation failed");
        ts_go ([p] {
            uint64_t v;
            while (hev_task_channel_read (p, &v, 8) == 8) {
                v++;
                hev_task_channel_write (p, &v, 8);
            }
            hev_task_channel_destroy (p);
        });
    }
    hev_task_add_fd (t->h, t->pfd[0], POLLIN);
    hev_task_set_priority (t->h, vt_range (1, 15));
    hev_task_run (
        t->h, [] (void *d) { body ((T *)d); }, t);
}

void
prop_case (void)
{
    St st;
    int n = vt_range (2, 6);

    S = &st;
    ts_env_clear ();
    ts_clock ();
    ts_init ();
    hev_task_mutex_init (&st.m);
    st.spawn = vt_range (0, 4);
    for (int i = 0; i < n; i++)
        start ();
    ts_run ();
    for (T *t : st.t)
        VT_CHECK (t->done, "lost: task %d did not finish", t->id);
    ts_fini ();
    if (st.deep >= 3 && st.t.size () >= 3)
        vt_nontrivial ();
    vt_label ("suspensions at depth >= 2", st.deep);
    vt_sample ("tasks=%zu deep suspensions=%d", st.t.size (), st.deep);
    for (T *t : st.t)
        delete t;
}
