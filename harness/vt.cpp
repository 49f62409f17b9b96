#include "vt.hpp"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define CAP (1 << 17)
#define MAXLAB 96
#define MAXSAMP 4
#define SIGCAP (1 << 20)

struct Shm {
    volatile uint64_t cur;      /* case index being run */
    volatile uint64_t progress; /* bumps per case */
    volatile uint32_t failed;
    char msg[1024];
    uint32_t nch;
    uint64_t ch[CAP];
    /* evidence */
    uint64_t evals, nontriv, inconclusive;
    char inc_msg[512];
    struct {
        char name[48];
        uint64_t n;
    } lab[MAXLAB];
    uint32_t nlab;
    char samp[MAXSAMP][900];
    uint32_t nsamp;
    uint32_t nsig, sigover;
    uint64_t sig[SIGCAP];
    /* confirmed failure */
    uint32_t confirmed; /* 1 solo, 2 batch */
    uint64_t fail_idx, fail_from;
    uint32_t fail_nch;
    char fail_msg[1024];
    uint64_t fail_ch[CAP];
};

struct Global {
    volatile uint64_t min_fail;
};

static Global *glob;
static Shm *shm; /* region of this worker */
static bool thorough;
static const char *variant = "default";
bool vt_verbose;
uint64_t vt_seed_ = 1;
static uint64_t salt;
static int errfd = -1;

/* per-case state */
static const uint64_t *rep;
static uint32_t nrep;
static bool replaying;
static uint64_t rng[2];
static uint64_t enum_idx;
static uint64_t case_idx;
static bool nontriv;
static uint64_t sigv;
static char samplebuf[900];

static uint64_t
mix (uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

uint64_t
vt_hash (uint64_t a, uint64_t b)
{
    return mix (mix (a) ^ (b * 0x9e3779b97f4a7c15ull));
}

static uint64_t
rnd (void)
{
    uint64_t a = rng[0], b = rng[1];
    rng[0] = b;
    a ^= a << 23;
    rng[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return rng[1] + b;
}

static void
record (uint64_t v)
{
    if (shm->nch < CAP)
        shm->ch[shm->nch] = v;
    shm->nch++;
    if (shm->nch > CAP)
        vt_fail ("harness: choice sequence too long");
}

uint64_t
vt_u (uint64_t n)
{
    uint64_t v;

    if (n <= 1)
        return 0;
    if (replaying)
        v = shm->nch < nrep ? rep[shm->nch] % n : 0;
    else
        v = (uint64_t)(((unsigned __int128)rnd () * n) >> 64);
    record (v);
    return v;
}

uint64_t
vt_enum (uint64_t n)
{
    uint64_t v;

    if (n <= 1)
        return 0;
    if (replaying) {
        v = shm->nch < nrep ? rep[shm->nch] % n : 0;
    } else {
        v = enum_idx % n;
        enum_idx /= n;
    }
    record (v);
    return v;
}

int
vt_weight (std::initializer_list<int> w)
{
    int t = 0, i = 0;
    for (int x : w)
        t += x;
    int v = (int)vt_u (t);
    for (int x : w) {
        if (v < x)
            return i;
        v -= x;
        i++;
    }
    return 0;
}

uint64_t
vt_case (void)
{
    return case_idx;
}

bool
vt_thorough (void)
{
    return thorough;
}

const char *
vt_variant (void)
{
    return variant;
}

void
vt_nontrivial (void)
{
    nontriv = true;
}

void
vt_sig (uint64_t v)
{
    sigv = vt_hash (sigv, v);
}

void
vt_label (const char *name, uint64_t n)
{
    uint32_t i;

    if (!n || replaying)
        return;
    for (i = 0; i < shm->nlab; i++)
        if (!strcmp (shm->lab[i].name, name))
            break;
    if (i == shm->nlab) {
        if (i == MAXLAB)
            return;
        snprintf (shm->lab[i].name, sizeof (shm->lab[i].name), "%s", name);
        shm->lab[i].n = 0;
        shm->nlab++;
    }
    shm->lab[i].n += n;
}

void
vt_sample (const char *fmt, ...)
{
    va_list ap;
    size_t l = strlen (samplebuf);

    va_start (ap, fmt);
    vsnprintf (samplebuf + l, sizeof (samplebuf) - l, fmt, ap);
    va_end (ap);
}

void
vt_log (const char *fmt, ...)
{
    va_list ap;
    char b[1024];
    int n;

    if (!vt_verbose)
        return;
    va_start (ap, fmt);
    n = vsnprintf (b, sizeof (b) - 1, fmt, ap);
    va_end (ap);
    if (n > (int)sizeof (b) - 2)
        n = sizeof (b) - 2;
    b[n++] = '\n';
    if (write (1, b, n) < 0) {
    }
}

extern "C" void
vt_fail (const char *fmt, ...)
{
    va_list ap;

    if (shm && !shm->failed) {
        va_start (ap, fmt);
        vsnprintf (shm->msg, sizeof (shm->msg), fmt, ap);
        va_end (ap);
        shm->failed = 1;
    }
    _exit (3);
}

bool vt_zero_idle;
static int zero_mode;

/* what lives as long as the process may have got the number in a former case */
static void
zero_close (void)
{
    struct stat st;

    if (fstat (0, &st) == 0 && S_ISCHR (st.st_mode))
        close (0);
}

void
vt_zero_later (void)
{
    if (zero_mode != 2)
        return;
    zero_mode = 1;
    zero_close ();
}

int
vt_pipe (int v[2])
{
    int fd;

    if (pipe2 (v, O_NONBLOCK))
        return -1;
    if (v[0] == 0 && vt_bool ()) {
        fd = dup (0);
        if (fd < 0 || dup2 (v[1], 0) < 0)
            return -1;
        close (v[1]);
        v[0] = fd;
        v[1] = 0;
    }
    return 0;
}

static void
seed_case (uint64_t idx)
{
    uint64_t h = vt_hash (vt_seed_, salt);
    for (const char *p = prop_id; *p; p++)
        h = vt_hash (h, *p);
    rng[0] = vt_hash (h, idx);
    rng[1] = vt_hash (rng[0], 77) | 1;
    enum_idx = idx;
    case_idx = idx;
}

static void
run_one (uint64_t idx, const uint64_t *r, uint32_t nr)
{
    struct itimerval it = {};

    shm->cur = idx;
    shm->nch = 0;
    shm->msg[0] = 0;
    shm->failed = 0;
    rep = r;
    nrep = nr;
    replaying = r != NULL;
    nontriv = false;
    sigv = 0;
    samplebuf[0] = 0;
    seed_case (idx);
    it.it_value.tv_sec = prop_cpu_limit ? prop_cpu_limit () : 20;
    setitimer (ITIMER_PROF, &it, NULL);
    vos_reset ();
    zero_mode = vt_weight ({ 8, 1, 1 });
    vt_zero_idle = !zero_mode;
    if (zero_mode == 1)
        zero_close ();
    prop_case ();
    vos_fault = NULL;
    if (!vt_zero_idle && fcntl (0, F_GETFD) < 0)
        open ("/dev/null", O_RDWR);
    if (!replaying) {
        shm->evals++;
        if (nontriv) {
            shm->nontriv++;
            if (!sigv)
                for (uint32_t i = 0; i < shm->nch; i++)
                    vt_sig (shm->ch[i]);
            if (shm->nsig < SIGCAP)
                shm->sig[shm->nsig++] = sigv;
            else
                shm->sigover = 1;
            if (samplebuf[0] && shm->nsamp < MAXSAMP &&
                (mix (idx) % 7 == 0 || shm->nsamp == 0))
                memcpy (shm->samp[shm->nsamp++], samplebuf, sizeof (samplebuf));
        }
    }
    shm->progress++;
}

static void
child_setup (void)
{
    struct rlimit rl = { 0, 0 };

    prctl (PR_SET_PDEATHSIG, SIGKILL);
    setrlimit (RLIMIT_CORE, &rl);
    int nul = open ("/dev/null", O_RDWR);
    if (nul >= 0) {
        dup2 (nul, 0);
        if (!vt_verbose)
            dup2 (nul, 1);
        if (nul > 2)
            close (nul);
    }
    if (!vt_verbose) {
        if (errfd >= 0) {
            if (ftruncate (errfd, 0) < 0) {
            }
            lseek (errfd, 0, SEEK_SET);
            dup2 (errfd, 2);
        }
    }
    signal (SIGPIPE, SIG_IGN);
    vos_init ();
    if (prop_setup)
        prop_setup ();
}

static int
proc_stat (pid_t pid, char *state, unsigned long *cpu)
{
    char p[64], b[1024], *q;
    unsigned long ut, st;
    int fd, n;

    snprintf (p, sizeof (p), "/proc/%d/stat", (int)pid);
    fd = open (p, O_RDONLY);
    if (fd < 0)
        return -1;
    n = read (fd, b, sizeof (b) - 1);
    close (fd);
    if (n <= 0)
        return -1;
    b[n] = 0;
    q = strrchr (b, ')');
    if (!q ||
        sscanf (q + 2,
                "%c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", state,
                &ut, &st) != 3)
        return -1;
    *cpu = ut + st;
    return 0;
}

/* wait for child; returns 0 ok, 1 failed (shm->msg describes), 2 harness trouble */
static int
await (pid_t pid)
{
    int st, pfd = syscall (SYS_pidfd_open, pid, 0);
    uint64_t last = ~0ull;
    unsigned long lastcpu = 0;
    int still = 0, same = 0, asleep = 0;
    bool blocked = false;

    for (;;) {
        struct pollfd p = { pfd, POLLIN, 0 };
        int r = poll (&p, pfd >= 0 ? 1 : 0, pfd >= 0 ? 1000 : 2);
        if (r > 0 || pfd < 0) {
            pid_t w = waitpid (pid, &st, pfd >= 0 ? 0 : WNOHANG);
            if (w == pid)
                break;
            if (w < 0 && errno == EINTR)
                continue;
            if (pfd >= 0)
                continue;
            continue;
        }
        if (r == 0) {
            char s = 'R';
            unsigned long cpu = 0;
            int known = proc_stat (pid, &s, &cpu) == 0;
            bool sleeps = known && (s == 'S' || s == 'D');
            /* one case for a minute and asleep at nearly every look: its
             * threads only wait for each other, if with short naps */
            same = known && shm->progress == last ? same + 1 : 0;
            asleep = same ? asleep + sleeps : 0;
            if (same >= 60 && asleep >= same - same / 10) {
                kill (pid, SIGKILL);
                blocked = true;
                same = 0;
            } else if (same >= 400) {
                kill (pid, SIGKILL);
                same = 0;
            }
            if (sleeps && shm->progress == last && cpu - lastcpu <= 1) {
                if (++still >= 15) {
                    kill (pid, SIGKILL);
                    blocked = true;
                    still = 0;
                }
            } else {
                still = 0;
            }
            last = shm->progress;
            lastcpu = cpu;
        }
    }
    if (pfd >= 0)
        close (pfd);
    if (WIFEXITED (st) && WEXITSTATUS (st) == 0)
        return 0;
    /* a case that could not be set up says nothing */
    if (WIFEXITED (st) && WEXITSTATUS (st) == 3 && shm->failed)
        return strncmp (shm->msg, "harness:", 8) ? 1 : 2;
    if (blocked) {
        snprintf (shm->msg, sizeof (shm->msg),
                  "blocked: the whole thread sleeps in the kernel");
    } else if (WIFSIGNALED (st)) {
        int sg = WTERMSIG (st);
        if (sg == SIGPROF)
            snprintf (shm->msg, sizeof (shm->msg), "hang: CPU limit reached");
        else if (sg == SIGKILL) {
            snprintf (shm->msg, sizeof (shm->msg), "harness: killed");
            return 2;
        } else
            snprintf (shm->msg, sizeof (shm->msg), "crash: signal %d (%s)", sg,
                      strsignal (sg));
    } else {
        snprintf (shm->msg, sizeof (shm->msg), "crash: exit status %d",
                  WEXITSTATUS (st));
    }
    if (errfd >= 0 && !blocked) {
        /* keep the first telling line of a sanitizer report */
        static char b[65536];
        int n = pread (errfd, b, sizeof (b) - 1, 0);
        if (n > 0) {
            char *q;
            b[n] = 0;
            q = strstr (b, "ERROR: ");
            if (!q)
                q = strstr (b, "WARNING: ");
            if (!q)
                q = strstr (b, "runtime error: ");
            if (q) {
                char *e = strchr (q, '\n');
                size_t l = strlen (shm->msg);
                if (e)
                    *e = 0;
                snprintf (shm->msg + l, sizeof (shm->msg) - l, " [%.300s]", q);
                if (e)
                    *e = '\n';
                q = e ? strstr (e + 1, "    #0 ") : NULL;
                for (int k = 0; q && k < 4; k++) {
                    e = strchr (q, '\n');
                    l = strlen (shm->msg);
                    if (e)
                        *e = 0;
                    snprintf (shm->msg + l, sizeof (shm->msg) - l, " <%.120s>",
                              q + 4);
                    if (!e)
                        break;
                    q = e + 1;
                    if (strncmp (q, "    #", 5))
                        break;
                }
            }
        }
    }
    shm->failed = 1;
    return 1;
}

static int
solo (const uint64_t *ch, uint32_t n, uint64_t idx)
{
    static const uint64_t none = 0;
    pid_t pid;

    /* an empty sequence is a replay too: all choices are 0 */
    if (!ch)
        ch = &none;
    shm->failed = 0;
    shm->nch = 0;
    shm->msg[0] = 0;
    pid = fork ();
    if (pid == 0) {
        child_setup ();
        run_one (idx, ch, n);
        _exit (0);
    }
    if (pid < 0)
        return 2;
    return await (pid);
}

static int
batch (uint64_t from, uint64_t to, bool evidence)
{
    pid_t pid;
    (void)evidence;

    shm->failed = 0;
    shm->nch = 0;
    shm->msg[0] = 0;
    pid = fork ();
    if (pid == 0) {
        child_setup ();
        for (uint64_t i = from; i < to; i++)
            run_one (i, NULL, 0);
        _exit (0);
    }
    if (pid < 0)
        return 2;
    return await (pid);
}

static std::string
kind (const char *m)
{
    const char *c = strchr (m, ':');
    return c ? std::string (m, c - m) : std::string (m);
}

static double
wall (void)
{
    struct timespec t;
    clock_gettime (CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static double t0, limit_s = 780;

/* whether the case fails three times: in a row, or among many runs when its
 * threads run freely */
static bool
fails_again (const uint64_t *ch, uint32_t n, uint64_t idx)
{
    bool racy = prop_racy && prop_racy ();
    double end = wall () + 60;
    int bad = 0;

    for (int k = 0; k < (racy ? 100 : 3) && bad < 3; k++) {
        if (solo (ch, n, idx) == 1)
            bad++;
        else if (!racy || wall () > end)
            return false;
    }
    return bad == 3;
}

static void
worker (int w, int nw, uint64_t cases)
{
    uint64_t bs = prop_batch ? prop_batch () : 50, b;
    char nm[32];

    snprintf (nm, sizeof (nm), "err%d", w);
    errfd = memfd_create (nm, MFD_CLOEXEC);
    for (b = w; b * bs < cases; b += nw) {
        uint64_t from = b * bs, to = std::min (cases, from + bs);

        while (from < to) {
            if (from > glob->min_fail)
                return;
            if (wall () - t0 > limit_s)
                return;
            int r = batch (from, to, true);
            if (r == 0)
                break;
            uint64_t bad = shm->cur;
            if (r == 2) {
                shm->inconclusive++;
                snprintf (shm->inc_msg, sizeof (shm->inc_msg),
                          "case %llu: %.200s", (unsigned long long)bad,
                          shm->msg);
                from = bad + 1;
                continue;
            }
            /* confirm */
            uint32_t n = std::min<uint32_t> (shm->nch, CAP);
            char msg[1024];
            memcpy (msg, shm->msg, sizeof (msg));
            static uint64_t cp[CAP];
            memcpy (cp, shm->ch, n * 8);
            int ok = 0, conf = 0;
            if (fails_again (cp, n, bad))
                conf = 1;
            else {
                /* several cases in one process: replay the prefix */
                Shm *save = (Shm *)malloc (sizeof (Shm));
                memcpy (save, shm, sizeof (Shm));
                ok = 0;
                for (int k = 0; k < 3; k++)
                    ok += batch (from, bad + 1, false) == 1 && shm->cur == bad;
                memcpy (shm, save, sizeof (Shm));
                free (save);
                if (ok == 3)
                    conf = 2;
            }
            if (conf) {
                shm->confirmed = conf;
                shm->fail_idx = bad;
                shm->fail_from = from;
                shm->fail_nch = n;
                memcpy (shm->fail_msg, msg, sizeof (msg));
                memcpy (shm->fail_ch, cp, n * 8);
                uint64_t m = glob->min_fail;
                while (bad < m && !__sync_bool_compare_and_swap (
                                      &glob->min_fail, m, bad))
                    m = glob->min_fail;
                return;
            }
            shm->inconclusive++;
            snprintf (shm->inc_msg, sizeof (shm->inc_msg), "case %llu: %.400s",
                      (unsigned long long)bad, msg);
            from = bad + 1;
        }
    }
}

/* ---------- shrinking ---------- */
static std::vector<uint64_t> best;
static std::string best_kind, best_msg;
static uint64_t best_idx;
static double shrink_end;
static int shrink_execs;

static bool
attempt (std::vector<uint64_t> c)
{
    if (wall () > shrink_end || shrink_execs > 6000)
        return false;
    shrink_execs++;
    if (solo (c.data (), c.size (), best_idx) != 1)
        return false;
    if (kind (shm->msg) != best_kind)
        return false;
    std::vector<uint64_t> used (shm->ch,
                                shm->ch + std::min<uint32_t> (shm->nch, CAP));
    std::string m = shm->msg;
    while (!used.empty () && used.back () == 0)
        used.pop_back ();
    if (used.size () > best.size () || (used.size () == best.size () && used >= best))
        return false;
    best = used;
    best_msg = m;
    return true;
}

static void
shrink (void)
{
    bool again = true;

    while (again && wall () < shrink_end) {
        again = false;
        for (size_t sz = std::max<size_t> (1, best.size () / 2); sz >= 1; sz /= 2)
            for (size_t i = best.size (); i-- > 0;) {
                if (i + sz > best.size ())
                    continue;
                std::vector<uint64_t> c = best;
                c.erase (c.begin () + i, c.begin () + i + sz);
                if (attempt (c))
                    again = true;
            }
        for (size_t sz = 8; sz >= 2; sz /= 2)
            for (size_t i = 0; i + sz <= best.size (); i += sz) {
                std::vector<uint64_t> c = best;
                bool z = false;
                for (size_t k = i; k < i + sz; k++) {
                    z |= c[k] != 0;
                    c[k] = 0;
                }
                if (z && attempt (c))
                    again = true;
            }
        for (size_t i = 0; i < best.size (); i++) {
            if (!best[i])
                continue;
            std::vector<uint64_t> c = best;
            c[i] = 0;
            if (attempt (c)) {
                again = true;
                continue;
            }
            uint64_t lo = 0, hi = i < best.size () ? best[i] : 0;
            while (hi - lo > 1 && i < best.size ()) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best;
                c[i] = mid;
                if (attempt (c)) {
                    again = true;
                    hi = mid;
                } else
                    lo = mid;
            }
            /* drop this element while lowering a previous count */
            if (i < best.size () && i > 0 && best[i - 1]) {
                c = best;
                c[i - 1]--;
                c.erase (c.begin () + i);
                if (attempt (c))
                    again = true;
            }
        }
    }
}

static void
jstr (FILE *f, const char *s)
{
    fputc ('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\')
            fprintf (f, "\\%c", c);
        else if (c < 32 || c > 126)
            fprintf (f, "\\u%04x", c);
        else
            fputc (c, f);
    }
    fputc ('"', f);
}

/* results live between wide inaccessible areas, so that a wild write of the
 * code under test does not reach them */
static void *
guarded (size_t n)
{
    size_t g = (size_t)4 << 30;
    char *p = (char *)mmap (NULL, n + 2 * g, PROT_NONE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

    if (p == MAP_FAILED)
        abort ();
    return mmap (p + g, n, PROT_READ | PROT_WRITE,
                 MAP_FIXED | MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

static Shm *
new_shm (void)
{
    return (Shm *)guarded (sizeof (Shm));
}

static int
do_replay (const char *path)
{
    FILE *f = fopen (path, "r");
    char line[256], msg[1024] = "";
    std::vector<uint64_t> c;
    uint64_t idx = 0, from = 0, to = 0;
    bool isbatch = false;
    int fails = 0, runs = 3, done = 0;

    if (!f) {
        perror (path);
        return 2;
    }
    while (fscanf (f, "%255s", line) == 1) {
        unsigned long long v, v2;
        if (!strcmp (line, "choices")) {
            while (fscanf (f, "%llu", &v) == 1)
                c.push_back (v);
        } else if (!strcmp (line, "index") && fscanf (f, "%llu", &v) == 1)
            idx = v;
        else if (!strcmp (line, "seed") && fscanf (f, "%llu", &v) == 1)
            vt_seed_ = v;
        else if (!strcmp (line, "salt") && fscanf (f, "%llu", &v) == 1)
            salt = v;
        else if (!strcmp (line, "batch") &&
                 fscanf (f, "%llu %llu", &v, &v2) == 2) {
            isbatch = true;
            from = v;
            to = v2;
        } else if (!fgets (line, sizeof (line), f))
            break;
    }
    fclose (f);
    shm = new_shm ();
    errfd = memfd_create ("err", MFD_CLOEXEC);
    if (prop_racy && prop_racy ())
        runs = 100;
    if (vt_verbose)
        runs = 1;
    for (int k = 0; k < runs && fails < 3; k++) {
        int r = isbatch ? batch (from, to, false)
                        : solo (c.data (), c.size (), idx);
        done++;
        if (r == 1) {
            fails++;
            memcpy (msg, shm->msg, sizeof (msg));
        }
    }
    printf ("replay: %d of %d runs failed%s%s\n", fails, done,
            fails ? ": " : "", msg);
    return fails == 3 || fails == runs ? 1 : fails ? 2 : 0;
}

int
main (int argc, char **argv)
{
    uint64_t cases = 1000, total = 0, nontrivial = 0, inconc = 0;
    int nw = 8, i;
    const char *out = NULL, *replay = NULL, *rfile = "replay.txt";
    const char *only = NULL;

    if (!(personality (0xffffffff) & ADDR_NO_RANDOMIZE) &&
        !getenv ("VT_REEXEC")) {
        if (personality (personality (0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) {
            setenv ("VT_REEXEC", "1", 1);
            execv ("/proc/self/exe", argv);
        }
    }
    for (i = 1; i < argc; i++) {
        const char *a = argv[i], *v = i + 1 < argc ? argv[i + 1] : "";
        if (!strcmp (a, "--seed"))
            vt_seed_ = strtoull (v, 0, 0), i++;
        else if (!strcmp (a, "--cases"))
            cases = strtoull (v, 0, 0), i++;
        else if (!strcmp (a, "--workers"))
            nw = atoi (v), i++;
        else if (!strcmp (a, "--out"))
            out = v, i++;
        else if (!strcmp (a, "--replay-file"))
            rfile = v, i++;
        else if (!strcmp (a, "--variant"))
            variant = v, i++;
        else if (!strcmp (a, "--salt"))
            salt = strtoull (v, 0, 0), i++;
        else if (!strcmp (a, "--limit"))
            limit_s = atof (v), i++;
        else if (!strcmp (a, "--thorough"))
            thorough = true;
        else if (!strcmp (a, "--replay"))
            replay = v, i++;
        else if (!strcmp (a, "--index"))
            only = v, i++;
        else if (!strcmp (a, "-v"))
            vt_verbose = true;
        else {
            fprintf (stderr, "bad argument %s\n", a);
            return 2;
        }
    }
    signal (SIGPIPE, SIG_IGN);
    t0 = wall ();
    if (replay)
        return do_replay (replay);
    if (only) {
        shm = new_shm ();
        vt_verbose = true;
        uint64_t ix = strtoull (only, 0, 0);
        int r = batch (ix, ix + 1, false);
        printf ("result %d %s\n", r, shm->msg);
        return r;
    }

    glob = (Global *)guarded (4096);
    glob->min_fail = ~0ull;
    std::vector<Shm *> regs;
    std::vector<pid_t> pids;
    for (i = 0; i < nw; i++)
        regs.push_back (new_shm ());
    for (i = 0; i < nw; i++) {
        pid_t p = fork ();
        if (p == 0) {
            prctl (PR_SET_PDEATHSIG, SIGKILL);
            shm = regs[i];
            worker (i, nw, cases);
            _exit (0);
        }
        pids.push_back (p);
    }
    bool trouble = false;
    for (i = 0; i < nw; i++) {
        int st;
        if (pids[i] < 0 || waitpid (pids[i], &st, 0) < 0 || st != 0)
            trouble = true;
    }
    if (trouble) {
        fprintf (stderr, "a worker process died\n");
        return 2;
    }

    Shm *bad = NULL;
    std::vector<uint64_t> sigs;
    std::vector<std::pair<std::string, uint64_t>> labs;
    bool over = false;
    for (Shm *s : regs) {
        total += s->evals;
        nontrivial += s->nontriv;
        inconc += s->inconclusive;
        over |= s->sigover;
        sigs.insert (sigs.end (), s->sig, s->sig + s->nsig);
        for (uint32_t k = 0; k < s->nlab; k++) {
            auto it = std::find_if (labs.begin (), labs.end (), [&] (auto &p) {
                return p.first == s->lab[k].name;
            });
            if (it == labs.end ())
                labs.push_back ({ s->lab[k].name, s->lab[k].n });
            else
                it->second += s->lab[k].n;
        }
        if (s->confirmed && (!bad || s->fail_idx < bad->fail_idx))
            bad = s;
    }
    std::sort (sigs.begin (), sigs.end ());
    sigs.erase (std::unique (sigs.begin (), sigs.end ()), sigs.end ());
    std::sort (labs.begin (), labs.end ());

    if (bad) {
        shm = new_shm ();
        errfd = memfd_create ("err", MFD_CLOEXEC);
        best.assign (bad->fail_ch, bad->fail_ch + bad->fail_nch);
        best_msg = bad->fail_msg;
        best_kind = kind (bad->fail_msg);
        best_idx = bad->fail_idx;
        if (bad->confirmed == 1) {
            bool slow = best_kind == "blocked" || best_kind == "hang";
            shrink_end = wall () + (getenv ("VERIF_NOSHRINK") ? 0 : slow ? 45 : 60);
            std::vector<uint64_t> orig = best;
            std::string omsg = best_msg;
            shrink ();
            if (!fails_again (best.data (), best.size (), best_idx)) {
                best = orig;
                best_msg = omsg;
            }
        }
        FILE *f = fopen (rfile, "w");
        if (!f) {
            perror (rfile);
            return 2;
        }
        fprintf (f, "property %s\nvariant %s\nindex %llu\nseed %llu\nsalt %llu\n",
                 prop_id, variant, (unsigned long long)best_idx,
                 (unsigned long long)vt_seed_, (unsigned long long)salt);
        if (bad->confirmed == 2)
            fprintf (f, "batch %llu %llu\n", (unsigned long long)bad->fail_from,
                     (unsigned long long)bad->fail_idx + 1);
        fprintf (f, "message %s\n", best_msg.c_str ());
        if (bad->confirmed == 1) {
            fprintf (f, "choices");
            for (uint64_t v : best)
                fprintf (f, " %llu", (unsigned long long)v);
            fprintf (f, "\n");
        }
        fclose (f);
    }

    FILE *o = out ? fopen (out, "w") : stdout;
    if (!o) {
        perror (out);
        return 2;
    }
    fprintf (o,
             "{\"evaluations\": %llu, \"planned\": %llu, \"nontrivial\": %llu, "
             "\"distinct\": %llu, \"inconclusive\": %llu, \"over\": %s,\n",
             (unsigned long long)total, (unsigned long long)cases,
             (unsigned long long)nontrivial, (unsigned long long)sigs.size (),
             (unsigned long long)inconc, over ? "true" : "false");
    fprintf (o, "\"rule\": ");
    jstr (o, prop_rule);
    fprintf (o, ",\n\"inconclusive_msgs\": [");
    bool first = true;
    for (Shm *s : regs)
        if (s->inconclusive) {
            fprintf (o, first ? "" : ", ");
            jstr (o, s->inc_msg);
            first = false;
        }
    fprintf (o, "],\n\"labels\": {");
    for (size_t k = 0; k < labs.size (); k++) {
        fprintf (o, k ? ", " : "");
        jstr (o, labs[k].first.c_str ());
        fprintf (o, ": %llu", (unsigned long long)labs[k].second);
    }
    fprintf (o, "},\n\"samples\": [");
    int ns = 0;
    for (uint32_t r = 0; r < MAXSAMP && ns < 5; r++)
        for (Shm *s : regs)
            if (r < s->nsamp && ns < 5) {
                fprintf (o, ns++ ? ", " : "");
                jstr (o, s->samp[r]);
            }
    fprintf (o, "],\n\"wall_s\": %.2f", wall () - t0);
    if (bad) {
        fprintf (o, ",\n\"failure\": {\"index\": %llu, \"replay\": ",
                 (unsigned long long)best_idx);
        jstr (o, rfile);
        fprintf (o, ", \"message\": ");
        jstr (o, best_msg.c_str ());
        fprintf (o, ", \"choices\": %zu, \"shrink_runs\": %d}", best.size (),
                 shrink_execs);
    }
    fprintf (o, "}\n");
    if (out)
        fclose (o);
    return bad ? 1 : 0;
}
