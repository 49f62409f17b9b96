/* Property driver: recorded choice sequences, batches, shrinking, evidence. */
#ifndef VT_HPP
#define VT_HPP

#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>

#include "vos.h"

extern "C" void vt_fail (const char *fmt, ...)
    __attribute__ ((noreturn, format (printf, 1, 2)));

/* uniform in [0,n); replays 0 when the recorded sequence is exhausted */
uint64_t vt_u (uint64_t n);
/* like vt_u, but enumerates systematically over the case index */
uint64_t vt_enum (uint64_t n);
static inline int
vt_range (int lo, int hi)
{
    return lo + (int)vt_u ((uint64_t)(hi - lo) + 1);
}
/* true with probability num/den; shrinks to false */
static inline bool
vt_chance (unsigned num, unsigned den)
{
    return vt_u (den) >= den - num;
}
static inline bool
vt_bool (void)
{
    return vt_u (2);
}
/* weighted index; shrinks to 0 */
int vt_weight (std::initializer_list<int> w);
template <class T>
static inline T
vt_pick (std::initializer_list<T> l)
{
    return l.begin ()[vt_u (l.size ())];
}
/* does the list go on?  bounded length, shrinks to shorter */
static inline bool
vt_more (unsigned len, unsigned max, unsigned mean)
{
    if (len >= max)
        return false;
    return vt_chance (mean, mean + 1);
}
/* descriptor 0 is /dev/null and nobody uses it; else the case started with it
 * closed, so that new descriptors can get that number */
extern bool vt_zero_idle;
void vt_zero_later (void); /* or gets closed here */
/* a non-blocking pipe; either end may get number 0 */
int vt_pipe (int v[2]);
/* an error a system call may end with; none that asks to try again later */
static inline int
vt_errno (void)
{
    static const int e[] = {
        EIO,          EINTR,        ENOMEM,       ECONNRESET,   EPIPE,
        ETIMEDOUT,    ENOBUFS,      EBADF,        ENOTCONN,     ECONNREFUSED,
        ECONNABORTED, EHOSTUNREACH, ENETUNREACH,  ENETDOWN,     ENETRESET,
        EHOSTDOWN,    EACCES,       EPERM,        EFAULT,       ENOSPC,
        EDQUOT,       EFBIG,        EMSGSIZE,     EDESTADDRREQ, EADDRNOTAVAIL,
        EADDRINUSE,   EAFNOSUPPORT, EPROTO,       EOPNOTSUPP,   ENOTSOCK,
        ESHUTDOWN,    EMFILE,       ENFILE,       ENODEV,       ENXIO,
        EPROTOTYPE,   EBUSY,        ETXTBSY,      ENOENT,       ENOTDIR,
    };
    return e[vt_u (sizeof (e) / sizeof (e[0]))];
}
/* derived randomness that is not worth shrinking (payload bytes) */
uint64_t vt_hash (uint64_t a, uint64_t b);

/* evidence */
void vt_nontrivial (void);
void vt_sig (uint64_t v);          /* mixed into the signature of the case */
void vt_label (const char *name, uint64_t n = 1);
void vt_sample (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
void vt_log (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
extern bool vt_verbose; /* single replay: print vt_log */
extern uint64_t vt_seed_;
bool vt_thorough (void);
const char *vt_variant (void);
uint64_t vt_case (void);

#define VT_CHECK(cond, ...)                                                    \
    do {                                                                       \
        if (!(cond))                                                           \
            vt_fail (__VA_ARGS__);                                             \
    } while (0)

/* every property file defines these */
extern const char *prop_id;
extern const char *prop_rule;
void prop_case (void);
extern "C" int prop_setup (void) __attribute__ ((weak));
/* cases per child process; weak, default 50 */
extern "C" int prop_batch (void) __attribute__ ((weak));
/* threads run freely: the same case does not fail every time */
extern "C" int prop_racy (void) __attribute__ ((weak));
/* seconds of CPU one case may take; weak, default 20 */
extern "C" int prop_cpu_limit (void) __attribute__ ((weak));

#endif
