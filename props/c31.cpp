// VARIANTS default:48000:240000 heap:24000:120000 nosod:16000:80000 heap3:12000:60000
#include "ts.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>

const char *prop_id = "C31";
const char *prop_rule =
    "A case is a set of tasks with generated stack sizes that fill their stacks "
    "to the requested size at the same time, after generations of other tasks; "
    "or, in the guarded build, such a set in a process of its own in which one "
    "task runs over the end of its stack with generated frame sizes while "
    "sentinels lie next to every stack. Non-trivial: two stacks were full at "
    "once, or a stack overflowed. Distinct by sizes, depths and frames.";

#define PAGE 4096
/* what a task may not be able to use, and what the harness needs itself */
#define OVERHEAD 1200
#define ROOM 700

struct Reg {
    unsigned char *p;
    size_t n;
    uint64_t tag;
    int task;
};
/* shared with the process that overflows */
struct Ctl {
    Reg reg[64];
    volatile int nreg;
    Reg sent[400]; /* sentinels */
    volatile int nsent;
    volatile int stage; /* 1: overflowing, 2: survived, 3: ended without */
    volatile size_t at;
    char msg[200];
};
static Ctl *ctl;
static unsigned char *arena;
static size_t arena_n, arena_at;
static int down, gap;

static unsigned char
pat (uint64_t tag, size_t i)
{
    return (unsigned char)((tag * 0x9e3779b97f4a7c15ULL >> 30) + i * 11 +
                           (i >> 9) * 3);
}

struct T {
    int size;    /* as requested */
    size_t want; /* bytes it must be able to use */
    int laps;
    HevTask *t;
    bool full, done;
    int id;
};
static std::vector<T *> ts;
static int at_once, filled_n;
static size_t sparse; /* fill every so many bytes in big stacks */

__attribute__ ((noinline)) static void
use (T *t, unsigned char *p, size_t n)
{
    size_t step = n > 300000 ? 1021 : 1;
    uint64_t tag = t->id + 1;
    int c = 0;

    for (size_t i = 0; i < n; i += step)
        p[i] = pat (tag, i);
    p[n - 1] = pat (tag, n - 1);
    t->full = true;
    if (ctl && step == 1 && ctl->nreg < 64)
        ctl->reg[ctl->nreg++] = { p, n, tag, t->id };
    for (int k = 0; k < t->laps; k++) {
        hev_task_yield (HEV_TASK_YIELD);
        c = 0;
        for (T *x : ts)
            c += x->full;
        if (c > at_once)
            at_once = c;
    }
    if (ctl)
        /* others overflow while this one is away */
        hev_task_sleep (50);
    t->full = false;
    for (size_t i = 0; i < n; i += step)
        VT_CHECK (p[i] == pat (tag, i),
                  "content: byte %zu of %zu of a task's stack changed", i, n);
    VT_CHECK (p[n - 1] == pat (tag, n - 1),
              "content: the last byte of a task's stack changed");
    filled_n++;
}

__attribute__ ((noinline)) static void
fill (T *t, char *top)
{
    char here;
    long n = (long)t->want - OVERHEAD - (top - &here);
    void *base;
    size_t size;

    if (n < 1)
        n = 1;
    unsigned char *p = (unsigned char *)__builtin_alloca (n);
    bool in = vos_find_map (p - ROOM, &base, &size) ||
              vos_find_block (p - ROOM, &base, &size);
    VT_CHECK (in && top <= (char *)base + size,
              "space: a stack of %d bytes does not hold %ld", t->size,
              (long)(top - (char *)p) + ROOM);
    VT_CHECK (!vos_overlaps (p, n), "overlap: a stack overlaps other memory");
    use (t, p, n);
}

static void
body (void *d)
{
    T *t = (T *)d;
    char *top = (char *)__builtin_frame_address (0);

    VT_CHECK (((uintptr_t)top & 15) == 0, "align: the stack is not aligned");
    fill (t, top);
    t->done = true;
}

static int
gen_size (void)
{
    switch (vt_weight ({ 3, 3, 3, 1, 2 })) {
    case 0: {
        int k = vt_range (1, 20) * PAGE;
        return k - 1 + vt_u (3);
    }
    case 1:
        return vt_range (4096, 9000);
    case 2:
        return vt_range (4096, 100000);
    case 3:
        return vt_range (100000, 3000000);
    }
    return -vt_range (1, 3);
}

static T *
task_new (int size)
{
    T *t = new T ();
    t->size = size;
    t->want = size < 0 ? 60 * 1024 : size;
    t->laps = vt_range (1, 3);
    t->id = ts.size ();
    t->t = hev_task_new (size);
    VT_CHECK (t->t, "create: no task with a stack of %d", size);
    vt_log ("task %d: stack %d", t->id, size);
    vt_sig (size + 7);
    ts.push_back (t);
    return t;
}

static void
tasks_free (void)
{
    for (T *t : ts)
        delete t;
    ts.clear ();
}

static void
normal (void)
{
    int gens = vt_range (1, 3), total = 0;
    vos_res r0 = vos_live, r1;

    ts_init ();
    for (int g = 0; g < gens; g++) {
        int n = vt_range (1, 7);
        std::vector<HevTask *> idle;
        r1 = vos_live;
        for (int i = 0; i < n; i++) {
            T *t = task_new (gen_size ());
            hev_task_ref (t->t);
            if (vt_chance (1, 6)) /* never started */
                t->done = true;
            else
                hev_task_run (t->t, body, t);
            if (t->done)
                hev_task_unref (t->t);
        }
        total += n;
        ts_run ();
        for (T *t : ts)
            VT_CHECK (t->done, "lost: a task did not finish");
        /* released with the last reference, not before and not later */
        int order = vt_u (2);
        for (int i = 0; i < n; i++) {
            T *t = ts[order ? n - 1 - i : i];
            long m = vos_live.maps;
            hev_task_unref (t->t);
            if (r1.maps != m)
                VT_CHECK (vos_live.maps < m, "release: a stack was not "
                                             "released with its task");
        }
        VT_CHECK (vos_live.maps == r1.maps &&
                      vos_live.map_bytes == r1.map_bytes,
                  "release: %ld mappings, %ld bytes are left",
                  vos_live.maps - r1.maps, vos_live.map_bytes - r1.map_bytes);
        tasks_free ();
    }
    ts_fini ();
    VT_CHECK (vos_live.maps == r0.maps && vos_live.map_bytes == r0.map_bytes &&
                  vos_live.blocks == r0.blocks && vos_live.bytes == r0.bytes,
              "leak: %ld mappings, %ld blocks are left",
              vos_live.maps - r0.maps, vos_live.blocks - r0.blocks);
    if (at_once >= 2)
        vt_nontrivial ();
    vt_label ("stacks filled", filled_n);
    vt_sample ("tasks=%d generations=%d full at once=%d", total, gens,
               at_once);
}

/* ---- overflow, in a process of its own ---- */
static void *
place (size_t n)
{
    size_t len = (n + PAGE - 1) / PAGE * PAGE, s = (size_t)gap * PAGE;
    unsigned char *p;

    if (arena_at + len + s > arena_n || ctl->nsent >= 400)
        return MAP_FAILED;
    if (down) {
        /* as the kernel does it: below the last one */
        p = arena + arena_n - arena_at - len;
        ctl->sent[ctl->nsent++] = { p - s, s, 0, 0 };
    } else {
        p = arena + arena_at + s;
        ctl->sent[ctl->nsent++] = { p - s, s, 0, 0 };
    }
    arena_at += len + s;
    return p;
}

static int how;
static size_t frame, most;
static char *otop;
static int yield_at;

__attribute__ ((noinline)) static int
deeper (int n)
{
    volatile unsigned char *p =
        (volatile unsigned char *)__builtin_alloca (frame);
    size_t used = otop - (char *)p;
    int r;

    ctl->at = used;
    if (used > most) {
        ctl->stage = 2;
        _exit (0);
    }
    switch (how) {
    case 0:
        for (size_t i = frame; i-- > 0;)
            p[i] = 1;
        break;
    case 1:
        p[0] = 1;
        break;
    case 2:
        p[frame - 1] = 1;
        break;
    case 3:
        p[frame / 2] = 1;
        break;
    }
    if (yield_at && n == yield_at)
        hev_task_yield (HEV_TASK_YIELD);
    r = deeper (n + 1);
    p[0]++;
    return r + p[frame / 3];
}

static void
over (void *d)
{
    T *t = (T *)d;

    /* let the others fill theirs */
    for (int i = 0; i < 6; i++)
        hev_task_yield (HEV_TASK_YIELD);
    otop = (char *)__builtin_frame_address (0);
    most = t->want + 16 * PAGE;
    ctl->stage = 1;
    deeper (1);
    ctl->stage = 2;
    _exit (0);
}

static void
overflow (void)
{
    int n = vt_range (1, 5), victim, gens = vt_u (3);
    std::vector<int> sizes;
    std::vector<int> early;
    int st = 0;
    pid_t pid;

    how = vt_u (4);
    frame = how == 0 ? vt_range (16, 3900) : vt_range (16, 3900);
    if (vt_chance (1, 3))
        frame = 3900;
    down = !vt_bool ();
    gap = vt_range (1, 3);
    yield_at = vt_chance (1, 3) ? vt_range (1, 12) : 0;
    for (int i = 0; i < n; i++) {
        int s = gen_size ();
        sizes.push_back (s > 200000 ? 200000 : s);
        vt_sig (s);
    }
    victim = vt_u (n);
    for (int i = 0; i < gens; i++)
        early.push_back (vt_range (4096, 100000));
    vt_sig (frame * 4 + how);
    vt_sig (victim * 8 + gap);
    vt_log ("frames of %zu, touch %d, task %d of %d, gap %d pages, %s", frame,
            how, victim, n, gap, down ? "downwards" : "upwards");

    arena_n = 8 << 20;
    arena_at = 0;
    arena = (unsigned char *)mmap (NULL, arena_n, PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANON, -1, 0);
    ctl = (Ctl *)mmap (NULL, sizeof (Ctl), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANON, -1, 0);
    if (arena == MAP_FAILED || ctl == MAP_FAILED)
        vt_fail ("harness: no memory");
    /* the choices made here are recorded before the process divides */
    std::vector<int> laps;
    pid = fork ();
    if (pid < 0)
        vt_fail ("harness: no process");
    if (pid == 0) {
        struct itimerval it = { { 0, 0 }, { 4, 0 } };
        struct rlimit rl = { 0, 0 };
        int nul = open ("/dev/null", O_WRONLY);
        dup2 (nul, 2);
        setitimer (ITIMER_PROF, &it, NULL);
        setrlimit (RLIMIT_CORE, &rl);
        vos_mmap = place;
        ts_init ();
        /* earlier tasks, whose stacks may be used again */
        for (int s : early) {
            T *t = new T ();
            t->size = s;
            t->want = s;
            t->id = 50;
            ctl->nreg = 64;
            t->t = hev_task_new (s);
            hev_task_run (t->t, body, t);
        }
        if (!early.empty ())
            ts_run ();
        ctl->nreg = 0;
        for (int i = 0; i < n; i++) {
            T *t = new T ();
            t->size = sizes[i];
            t->want = sizes[i] < 0 ? 60 * 1024 : sizes[i];
            t->id = i;
            t->laps = 1;
            t->t = hev_task_new (t->size);
            ts.push_back (t);
        }
        /* sentinels are written last: nothing is to touch them from here */
        for (int i = 0; i < ctl->nsent; i++)
            memset (ctl->sent[i].p, 0x5c, ctl->sent[i].n);
        for (int i = 0; i < n; i++)
            hev_task_run (ts[i]->t, i == victim ? over : body, ts[i]);
        ts_run ();
        ctl->stage = 3;
        _exit (0);
    }
    while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
        ;
    if (WIFSIGNALED (st) && WTERMSIG (st) == SIGKILL)
        vt_fail ("harness: killed");
    if (WIFEXITED (st) && WEXITSTATUS (st) == 3)
        vt_fail ("inside: a check failed before the overflow");
    for (int i = 0; i < ctl->nsent; i++)
        for (size_t k = 0; k < ctl->sent[i].n; k++)
            VT_CHECK (ctl->sent[i].p[k] == 0x5c,
                      "corrupt: memory %zu bytes below a stack was modified",
                      ctl->sent[i].n - k);
    for (int i = 0; i < ctl->nreg && i < 64; i++) {
        Reg *r = &ctl->reg[i];
        if (r->task == victim || r->p < arena || r->p >= arena + arena_n)
            continue;
        for (size_t k = 0; k < r->n; k++)
            VT_CHECK (r->p[k] == pat (r->tag, k),
                      "corrupt: the stack of another task was modified");
    }
    VT_CHECK (ctl->stage == 1, "survived: a task used %zu bytes of a stack of "
              "%d and went on", (size_t)ctl->at, sizes[victim]);
    VT_CHECK (!(WIFSIGNALED (st) && WTERMSIG (st) == SIGPROF),
              "hang: the process did not end after an overflow");
    VT_CHECK (WIFSIGNALED (st) || WEXITSTATUS (st) != 0,
              "survived: the process ended normally");
    size_t want = sizes[victim] < 0 ? 60 * 1024 : sizes[victim];
    VT_CHECK (ctl->at + frame + OVERHEAD + PAGE >= want,
              "space: a stack of %d ended after %zu bytes", sizes[victim],
              (size_t)ctl->at);
    vt_nontrivial ();
    vt_label ("overflows", 1);
    vt_label ("neighbours checked", ctl->nreg);
    vt_sample ("overflow tasks=%d stack=%d frames=%zu reached=%zu", n,
               sizes[victim], frame, (size_t)ctl->at);
    munmap (arena, arena_n);
    munmap (ctl, sizeof (Ctl));
    ctl = NULL;
}

void
prop_case (void)
{
    tasks_free ();
    ctl = NULL;
    at_once = filled_n = 0;
    ts_env_clear ();
    ts_clock ();
    if (!strcmp (vt_variant (), "default") && vt_weight ({ 1, 1 }))
        overflow ();
    else
        normal ();
}
