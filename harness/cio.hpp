/* Object and chained I/O interface.  The library's headers for these are C
 * only, so the calls are declared here and the inline ones go through shim.c. */
#ifndef CIO_HPP
#define CIO_HPP

#include "ts.hpp"
#include <sys/uio.h>

typedef void Cio;

extern "C" {
void sh_ref (void *o);
void sh_unref (void *o);
/* object whose finalizer calls back */
void *sh_obj_new (int atomic, void (*fin) (void *, void *), void *data);
unsigned sh_obj_count (void *o);
/* a layer that forwards everything to the next one; its finalizer counts */
Cio *sh_layer_new (int *finalized);
/* the error a chain reports */
int sh_cio_err (Cio *c);
/* an endpoint written by the program: what it does is up to fn */
enum { SH_READ, SH_WRITE, SH_READ_DGRAM, SH_WRITE_DGRAM, SH_FLUSH, SH_GET_FD,
       SH_OTHER };
Cio *sh_end_new (long (*fn) (void *data, int op, const struct iovec *v, int n,
                             long arg, void *addr, int *err),
                 void *data, int *finalized);
/* a layer that changes every byte and takes at most cap of them at once */
Cio *sh_mix_new (int key, size_t cap, int *finalized);

Cio *hev_task_cio_push (Cio *self, Cio *next);
Cio *hev_task_cio_pop (Cio *self);
int hev_task_cio_get_fd (Cio *self, int dir);
ssize_t hev_task_cio_read (Cio *, void *, size_t, HevTaskIOYielder, void *);
ssize_t hev_task_cio_read_exact (Cio *, void *, size_t, HevTaskIOYielder,
                                 void *);
ssize_t hev_task_cio_readv (Cio *, const struct iovec *, int, HevTaskIOYielder,
                            void *);
ssize_t hev_task_cio_readv_exact (Cio *, const struct iovec *, int,
                                  HevTaskIOYielder, void *);
ssize_t hev_task_cio_write (Cio *, const void *, size_t, HevTaskIOYielder,
                            void *);
ssize_t hev_task_cio_write_exact (Cio *, const void *, size_t,
                                  HevTaskIOYielder, void *);
ssize_t hev_task_cio_writev (Cio *, const struct iovec *, int,
                             HevTaskIOYielder, void *);
ssize_t hev_task_cio_writev_exact (Cio *, const struct iovec *, int,
                                   HevTaskIOYielder, void *);
ssize_t hev_task_cio_read_dgram (Cio *, void *, size_t, void *,
                                 HevTaskIOYielder, void *);
ssize_t hev_task_cio_readv_dgram (Cio *, const struct iovec *, int, void *,
                                  HevTaskIOYielder, void *);
ssize_t hev_task_cio_write_dgram (Cio *, const void *, size_t, const void *,
                                  HevTaskIOYielder, void *);
ssize_t hev_task_cio_writev_dgram (Cio *, const struct iovec *, int,
                                   const void *, HevTaskIOYielder, void *);
int hev_task_cio_flush (Cio *, HevTaskIOYielder, void *);
void hev_task_cio_splice (Cio *, Cio *, size_t, HevTaskIOYielder, void *);
Cio *hev_task_cio_buffer_new (size_t rsize, size_t wsize);
ssize_t hev_task_cio_buffer_peek (Cio *, void *, size_t);
int hev_task_cio_buffer_peekv (Cio *, struct iovec *);
Cio *hev_task_cio_fd_new (int fdi, int fdo);
Cio *hev_task_cio_null_new (void);
Cio *hev_task_cio_socket_new (int family, int fd);
}

#endif
