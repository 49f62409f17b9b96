// VARIANTS default:120000:600000 noslice:60000:300000 heap:40000:200000 asan:12000:60000
#include "ts.hpp"
#include <hev-task-call.h>
#include <memory>

const char *prop_id = "C32";
const char *prop_rule =
    "A case is a program of up to 5 tasks that call functions on private stacks "
    "of generated size: nested, repeated on one object, yielding, sleeping and "
    "blocking inside, filling the stack to its requested size. Non-trivial: at "
    "least two calls, of which one was suspended while another task was inside "
    "a call too, or a nested call. Distinct by the program.";

struct Body;
enum { YIELD, SLEEP, BLOCK, NEST, PASS };
struct Step {
    int what;
    int n;   /* ms, or object index */
    std::shared_ptr<Body> body;
};
struct Body {
    std::vector<Step> steps;
    uint64_t result;
    bool sets;
    bool fill;
    int id;
    int runs;
};
struct Obj {
    HevTaskCall *c;
    int base, stack;
    bool busy;
    uint64_t tag;
    /* of the call in progress */
    Body *body;
    struct T *task;
};
struct T {
    std::vector<Obj> objs;
    std::vector<Step> top;
    HevTask *t;
    int in; /* depth of calls */
    bool blocked, done;
};
static std::vector<T *> ts;
static int nbody, calls, nests, suspended, together, repeats;
static const char *var;

/* ---- helpers that run on the private stack ---- */
static unsigned char
pat (uint64_t tag, size_t i)
{
    return (unsigned char)((tag * 0x9e3779b97f4a7c15ULL >> 32) + i * 13 +
                           (i >> 8) * 5);
}

static void
mark (Obj *o)
{
    unsigned char *p = (unsigned char *)o->c;
    o->tag++;
    for (int i = sizeof (HevTaskCall); i < o->base; i++)
        p[i] = pat (o->tag, i);
}

static void
unmarked (Obj *o, const char *when)
{
    unsigned char *p = (unsigned char *)o->c;
    for (int i = sizeof (HevTaskCall); i < o->base; i++)
        VT_CHECK (p[i] == pat (o->tag, i),
                  "object: byte %d of %d of a call object (stack %d) changed "
                  "%s", i, o->base, o->stack, when);
}

static void do_steps (T *t, std::vector<Step> &steps);

/* room that the harness itself needs below the point of filling */
static int
margin (Body *b)
{
    return !strcmp (var, "asan") ? 9000 : b->steps.empty () ? 400 : 1500;
}

__attribute__ ((noinline)) static void
inner (T *t, Obj *o, Body *b, unsigned char *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
        p[i] = pat (o->tag + 99, i);
    do_steps (t, b->steps);
    for (size_t i = 0; i < n; i++)
        VT_CHECK (p[i] == pat (o->tag + 99, i),
                  "stack: a local of the function changed (byte %zu of %zu)",
                  i, n);
}

__attribute__ ((noinline)) static void
filled (T *t, Obj *o, Body *b, char *top)
{
    char here;
    long used = top - &here, n = o->stack - used - margin (b);
    void *base;
    size_t size;

    if (n < 16)
        n = 16;
    unsigned char *p = (unsigned char *)__builtin_alloca (n);
    /* the whole of it belongs to one piece of memory */
    bool in = vos_find_block (p, &base, &size) ||
              vos_find_map (p, &base, &size);
    VT_CHECK (in && top <= (char *)base + size,
              "space: a stack of %d does not hold %ld bytes", o->stack,
              (long)(top - (char *)p));
    inner (t, o, b, p, n);
}

static Obj *
find (HevTaskCall *c)
{
    for (T *t : ts)
        for (Obj &o : t->objs)
            if (o.c == c && o.busy)
                return &o;
    vt_fail ("identity: the function got an object that is not being called");
}

static void
entry (HevTaskCall *c)
{
    char *top = (char *)__builtin_frame_address (0);
    Obj *o = find (c);
    Body *b = o->body;
    T *t = o->task;

    VT_CHECK (((uintptr_t)top & 15) == 0, "align: the stack is not aligned");
    VT_CHECK (hev_task_self () == t->t, "identity: not in the calling task");
    b->runs++;
    if (b->fill)
        filled (t, o, b, top);
    else
        do_steps (t, b->steps);
    if (b->sets)
        hev_task_call_set_retval (c, (void *)b->result);
}

/* call with known values in the registers that a call must keep */
static void *
kept_call (HevTaskCall *c)
{
#if defined(__x86_64__) && !defined(__SANITIZE_ADDRESS__)
    static uint64_t salt;
    uint64_t s = vt_hash (++salt, 5), v[6] = { s,     s + 1, s + 2,
                                                s + 3, s + 4, s + 5 };
    uint64_t rbx = v[0], bp = v[1];
    register uint64_t r12 __asm__ ("r12") = v[2];
    register uint64_t r13 __asm__ ("r13") = v[3];
    register uint64_t r14 __asm__ ("r14") = v[4];
    void *ret = (void *)hev_task_call_jump;
    register void *rdi __asm__ ("rdi") = c;
    register void *rsi __asm__ ("rsi") = (void *)entry;
    uint64_t sp_ok = 0;

    __asm__ volatile("mov %%rsp, %%r15\n\t"
                     "sub $512, %%rsp\n\t"
                     "and $-16, %%rsp\n\t"
                     "push %%rbp\n\t"
                     "push %%r15\n\t"
                     "mov %%rdx, %%rbp\n\t"
                     "call *%%rax\n\t"
                     "mov %%rbp, %%rdx\n\t"
                     "pop %%rcx\n\t"
                     "pop %%rbp\n\t"
                     "sub %%rcx, %%r15\n\t"
                     "mov %%rcx, %%rsp\n\t"
                     "mov %%r15, %%rcx\n\t"
                     : "+a"(ret), "+b"(rbx), "+d"(bp), "=&c"(sp_ok), "+r"(r12),
                       "+r"(r13), "+r"(r14), "+r"(rdi), "+r"(rsi)
                     :
                     : "r8", "r9", "r10", "r11", "r15", "memory", "cc", "xmm0",
                       "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7",
                       "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13",
                       "xmm14", "xmm15");
    VT_CHECK (rbx == s && bp == s + 1 && r12 == s + 2 && r13 == s + 3 &&
                  r14 == s + 4 && sp_ok == 0,
              "locals: a preserved register changed across the call");
    return ret;
#else
    return hev_task_call_jump (c, entry);
#endif
}

__attribute__ ((noinline)) static void
do_call (T *t, Obj *o, Body *b)
{
    volatile unsigned char local[48];
    uint64_t tag = 1000 + b->id;
    int runs = b->runs;
    void *r;

    for (size_t i = 0; i < sizeof (local); i++)
        local[i] = pat (tag, i);
    mark (o);
    uint64_t mine = o->tag;
    o->busy = true;
    o->body = b;
    o->task = t;
    t->in++;
    calls++;
    nests += t->in > 1;
    r = kept_call (o->c);
    t->in--;
    o->busy = false;
    VT_CHECK (b->runs == runs + 1, "once: the function ran %d times",
              b->runs - runs);
    if (b->sets)
        VT_CHECK ((uint64_t)r == b->result, "result: %#llx, not %#llx",
                  (unsigned long long)r, (unsigned long long)b->result);
    VT_CHECK (o->tag == mine, "harness: object reused");
    unmarked (o, "during the call");
    for (size_t i = 0; i < sizeof (local); i++)
        VT_CHECK (local[i] == pat (tag, i), "locals: a local of the requester "
                                            "changed");
}

static void
away (T *t)
{
    if (!t->in)
        return;
    suspended++;
    for (T *x : ts)
        together += x != t && x->in && !x->done;
}

static void
do_steps (T *t, std::vector<Step> &steps)
{
    for (size_t k = 0; k < steps.size (); k++) {
        Step *s = &steps[k];
        switch (s->what) {
        case YIELD:
            away (t);
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case SLEEP:
            away (t);
            if (hev_task_sleep (s->n))
                vt_fail ("sleep: woken early");
            break;
        case BLOCK:
            away (t);
            t->blocked = true;
            while (t->blocked)
                hev_task_yield (HEV_TASK_WAITIO);
            break;
        case NEST:
            do_call (t, &t->objs[s->n], s->body.get ());
            break;
        case PASS:
            break;
        }
        VT_CHECK (!t->t || hev_task_self () == t->t,
                  "identity: another task came back");
    }
}

/* ---- generation ---- */
static int
gen_stack (void)
{
    int min = !strcmp (var, "asan") ? 24 * 1024 : 4 * 1024;
    switch (vt_weight ({ 3, 3, 1 })) {
    case 0:
        return min + vt_u (64);
    case 1:
        return min + vt_u (8000);
    }
    return vt_chance (1, 10) ? 120000 + vt_u (500000) : min + vt_u (120000);
}

static int
gen_base (void)
{
    switch (vt_u (3)) {
    case 0:
        return sizeof (HevTaskCall);
    case 1:
        return sizeof (HevTaskCall) + vt_u (70);
    }
    return sizeof (HevTaskCall) + vt_u (5000);
}

static std::vector<Step>
gen_steps (T *t, std::vector<int> avail, int depth, int most)
{
    std::vector<Step> v;
    int n = vt_u (most + 1);

    for (int i = 0; i < n; i++) {
        Step s = { PASS, 0, nullptr };
        bool first = depth == 0;
        s.what = vt_weight ({ 3, 2, 2, first ? 6 : 3, 1 });
        if (s.what == SLEEP)
            s.n = vt_range (1, 3);
        if (s.what == NEST) {
            if (avail.empty () || depth > 5) {
                s.what = YIELD;
            } else {
                size_t k = vt_u (avail.size ());
                s.n = avail[k];
                std::vector<int> rest = avail;
                rest.erase (rest.begin () + k);
                s.body = std::make_shared<Body> ();
                s.body->id = nbody++;
                s.body->runs = 0;
                s.body->sets = !vt_chance (1, 6);
                s.body->result = vt_chance (1, 4) ? 0 : vt_hash (s.body->id, 3);
                s.body->fill = vt_chance (2, 3);
                s.body->steps = gen_steps (t, rest, depth + 1, 4);
                vt_sig (s.n * 4 + s.body->fill * 2 + s.body->sets);
            }
        }
        vt_sig (s.what + 1000);
        v.push_back (s);
    }
    return v;
}

void
prop_case (void)
{
    int nt = vt_range (1, 5);
    vos_res r0;
    bool waker_on = true;

    var = vt_variant ();
    ts_env_clear ();
    ts_clock ();
    nbody = calls = nests = suspended = together = repeats = 0;
    ts.clear ();
    vos_alloc_max = 64 << 20;
    r0 = vos_live;
    ts_init ();
    for (int i = 0; i < nt; i++) {
        T *t = new T ();
        int no = vt_range (1, 4);
        std::vector<int> avail;
        for (int k = 0; k < no; k++) {
            Obj o = {};
            o.base = gen_base ();
            o.stack = gen_stack ();
            o.tag = i * 1000 + k * 77;
            t->objs.push_back (o);
            avail.push_back (k);
            vt_sig (o.base);
            vt_sig (o.stack);
        }
        t->top = gen_steps (t, avail, 0, 6);
        t->t = NULL;
        t->in = 0;
        t->blocked = t->done = false;
        ts.push_back (t);
    }
    for (int i = 0; i < nt; i++) {
        T *t = ts[i];
        int times = vt_range (1, 3);
        bool again = vt_bool ();
        int prio = vt_range (HEV_TASK_PRIORITY_MIN, HEV_TASK_PRIORITY_MAX);
        t->t = ts_new ();
        hev_task_set_priority (t->t, prio);
        ts_start (t->t, [=] {
            for (int r = 0; r < times; r++) {
                for (Obj &o : t->objs)
                    if (!o.c) {
                        o.c = hev_task_call_new (o.base, o.stack);
                        VT_CHECK (o.c, "create: no call object");
                    }
                repeats += r > 0 && !again;
                do_steps (t, t->top);
                if (again)
                    for (Obj &o : t->objs) {
                        hev_task_call_destroy (o.c);
                        o.c = NULL;
                    }
            }
            for (Obj &o : t->objs)
                if (o.c)
                    hev_task_call_destroy (o.c);
            t->done = true;
        });
    }
    ts_go ([&] {
        for (bool on = true; on;) {
            on = false;
            hev_task_sleep (1);
            for (T *t : ts) {
                if (t->done)
                    continue;
                on = true;
                if (t->blocked) {
                    t->blocked = false;
                    hev_task_wakeup (t->t);
                }
            }
        }
    });
    ts_run ();
    for (T *t : ts)
        VT_CHECK (t->done, "lost: a task did not finish");
    /* outside any task too */
    if (vt_chance (1, 4)) {
        T *t = ts[0];
        Obj *o = &t->objs[0];
        Body b = {};
        b.sets = true;
        b.result = 0x1234567;
        b.fill = true;
        b.id = 7;
        t->t = NULL;
        o->c = hev_task_call_new (o->base, o->stack);
        VT_CHECK (o->c, "create: no call object");
        do_call (t, o, &b);
        hev_task_call_destroy (o->c);
    }
    ts_fini ();
    VT_CHECK (vos_live.blocks == r0.blocks && vos_live.maps == r0.maps,
              "leak: %ld blocks, %ld mappings", vos_live.blocks - r0.blocks,
              vos_live.maps - r0.maps);
    if (calls >= 2 && (together || nests))
        vt_nontrivial ();
    vt_label ("calls", calls);
    vt_label ("nested calls", nests);
    vt_label ("suspensions inside", suspended);
    vt_label ("other task inside too", together);
    vt_sample ("tasks=%d calls=%d nested=%d suspended=%d", nt, calls, nests,
               suspended);
    for (T *t : ts)
        delete t;
    ts.clear ();
}
