/* C side of cio.hpp: uses only the library's public headers. */
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>

#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-object.h>
#include <hev-object-atomic.h>
#include <hev-task-cio.h>

void
sh_ref (void *o)
{
    hev_object_ref (HEV_OBJECT (o));
}

void
sh_unref (void *o)
{
    hev_object_unref (HEV_OBJECT (o));
}

struct obj {
    HevObjectAtomic base;
    HevObjectClass k;
    void (*fin) (void *, void *);
    void *data;
};

static void
obj_destruct (HevObject *o)
{
    struct obj *s = (struct obj *)o;

    s->fin (o, s->data);
}

/* every object carries its own class, so no shared state is involved */
void *
sh_obj_new (int atomic, void (*fin) (void *, void *), void *data)
{
    struct obj *s = calloc (1, sizeof (*s));
    int r;

    r = atomic ? hev_object_atomic_construct (&s->base) :
                 hev_object_construct (&s->base.base);
    if (r < 0)
        return NULL;
    memcpy (&s->k, atomic ? HEV_OBJECT_ATOMIC_TYPE : HEV_OBJECT_TYPE,
            sizeof (s->k));
    s->k.destruct = obj_destruct;
    s->base.base.klass = &s->k;
    s->fin = fin;
    s->data = data;
    return s;
}

extern void *hev_malloc0 (size_t);
extern void hev_free (void *);

struct layer {
    HevTaskCIO base;
    HevTaskCIOClass k;
    int *finalized;
};

static void
layer_destruct (HevObject *o)
{
    struct layer *s = (struct layer *)o;
    void (*up) (HevObject *) = HEV_TASK_CIO_TYPE->destruct;

    (*s->finalized)++;
    up (o);
    hev_free (o);
}

void *
sh_layer_new (int *finalized)
{
    struct layer *s = hev_malloc0 (sizeof (*s));

    if (!s)
        return NULL;
    hev_task_cio_construct (&s->base);
    memcpy (&s->k, HEV_TASK_CIO_TYPE, sizeof (s->k));
    s->k.base.destruct = layer_destruct;
    s->base.base.klass = &s->k.base;
    s->finalized = finalized;
    return s;
}

int
sh_cio_err (void *c)
{
    return HEV_TASK_CIO (c)->err;
}

/* an endpoint that is written by the program */
struct end {
    HevTaskCIO base;
    HevTaskCIOClass k;
    long (*fn) (void *, int, const struct iovec *, int, long, void *, int *);
    void *data;
    int *finalized;
};

static long
end_call (HevTaskCIO *c, int op, const struct iovec *v, int n, long arg,
          void *addr)
{
    struct end *s = (struct end *)c;

    return s->fn (s->data, op, v, n, arg, addr, &c->err);
}

static ssize_t
end_read (HevTaskCIO *c, void *b, size_t n)
{
    struct iovec v = { b, n };
    return end_call (c, 0, &v, 1, 0, NULL);
}

static ssize_t
end_write (HevTaskCIO *c, const void *b, size_t n)
{
    struct iovec v = { (void *)b, n };
    return end_call (c, 1, &v, 1, 0, NULL);
}

static ssize_t
end_readv (HevTaskCIO *c, const struct iovec *v, int n)
{
    return end_call (c, 0, v, n, 0, NULL);
}

static ssize_t
end_writev (HevTaskCIO *c, const struct iovec *v, int n)
{
    return end_call (c, 1, v, n, 0, NULL);
}

static ssize_t
end_read_dgram (HevTaskCIO *c, void *b, size_t n, void *a)
{
    struct iovec v = { b, n };
    return end_call (c, 2, &v, 1, 0, a);
}

static ssize_t
end_write_dgram (HevTaskCIO *c, const void *b, size_t n, const void *a)
{
    struct iovec v = { (void *)b, n };
    return end_call (c, 3, &v, 1, 0, (void *)a);
}

static ssize_t
end_readv_dgram (HevTaskCIO *c, const struct iovec *v, int n, void *a)
{
    return end_call (c, 2, v, n, 0, a);
}

static ssize_t
end_writev_dgram (HevTaskCIO *c, const struct iovec *v, int n, const void *a)
{
    return end_call (c, 3, v, n, 0, (void *)a);
}

static long
end_ctrl (HevTaskCIO *c, int ctrl, long l, void *p)
{
    switch (ctrl) {
    case HEV_TASK_CIO_CTRL_FLUSH:
        return end_call (c, 4, NULL, 0, l, p);
    case HEV_TASK_CIO_CTRL_GET_FD:
        return end_call (c, 5, NULL, 0, l, p);
    }
    return end_call (c, 6, NULL, ctrl, l, p);
}

static void
end_destruct (HevObject *o)
{
    struct end *s = (struct end *)o;
    void (*up) (HevObject *) = HEV_TASK_CIO_TYPE->destruct;

    (*s->finalized)++;
    up (o);
    hev_free (o);
}

void *
sh_end_new (long (*fn) (void *, int, const struct iovec *, int, long, void *,
                        int *),
            void *data, int *finalized)
{
    struct end *s = hev_malloc0 (sizeof (*s));

    if (!s)
        return NULL;
    hev_task_cio_construct (&s->base);
    memcpy (&s->k, HEV_TASK_CIO_TYPE, sizeof (s->k));
    s->k.base.destruct = end_destruct;
    s->k.read = end_read;
    s->k.write = end_write;
    s->k.readv = end_readv;
    s->k.writev = end_writev;
    s->k.read_dgram = end_read_dgram;
    s->k.write_dgram = end_write_dgram;
    s->k.readv_dgram = end_readv_dgram;
    s->k.writev_dgram = end_writev_dgram;
    s->k.ctrl = end_ctrl;
    s->base.base.klass = &s->k.base;
    s->fn = fn;
    s->data = data;
    s->finalized = finalized;
    return s;
}

/* a layer that changes every byte and takes at most cap of them at once */
struct mix {
    HevTaskCIO base;
    HevTaskCIOClass k;
    int key;
    size_t cap;
    int *finalized;
};

static void
mix_bytes (struct mix *s, unsigned char *b, size_t n)
{
    for (size_t i = 0; i < n; i++)
        b[i] ^= s->key;
}

static ssize_t
mix_read (HevTaskCIO *c, void *b, size_t n)
{
    struct mix *s = (struct mix *)c;
    ssize_t r = hev_task_cio_next_read (c, b, n < s->cap ? n : s->cap);

    if (r > 0)
        mix_bytes (s, b, r);
    return r;
}

static ssize_t
mix_write (HevTaskCIO *c, const void *b, size_t n)
{
    struct mix *s = (struct mix *)c;
    unsigned char *t;
    ssize_t r;

    if (n > s->cap)
        n = s->cap;
    t = malloc (n + 1);
    memcpy (t, b, n);
    mix_bytes (s, t, n);
    r = hev_task_cio_next_write (c, t, n);
    free (t);
    return r;
}

/* the same vector, at most cap bytes of it */
static int
mix_cut (struct mix *s, struct iovec *w, const struct iovec *v, int n)
{
    size_t left = s->cap;
    int i;

    for (i = 0; i < n; i++) {
        w[i] = v[i];
        if (w[i].iov_len > left)
            w[i].iov_len = left;
        left -= w[i].iov_len;
    }
    return i;
}

static ssize_t
mix_readv (HevTaskCIO *c, const struct iovec *v, int n)
{
    struct mix *s = (struct mix *)c;
    struct iovec *w = malloc ((n + 1) * sizeof (*w));
    ssize_t r;

    r = hev_task_cio_next_readv (c, w, mix_cut (s, w, v, n));
    if (r > 0) {
        size_t left = r;
        for (int i = 0; i < n && left; i++) {
            size_t e = w[i].iov_len < left ? w[i].iov_len : left;
            mix_bytes (s, w[i].iov_base, e);
            left -= e;
        }
    }
    free (w);
    return r;
}

static ssize_t
mix_writev (HevTaskCIO *c, const struct iovec *v, int n)
{
    struct mix *s = (struct mix *)c;
    struct iovec *w = malloc ((n + 1) * sizeof (*w));
    size_t total = 0, off = 0;
    unsigned char *t;
    ssize_t r;

    mix_cut (s, w, v, n);
    for (int i = 0; i < n; i++)
        total += w[i].iov_len;
    t = malloc (total + 1);
    for (int i = 0; i < n; i++) {
        memcpy (t + off, w[i].iov_base, w[i].iov_len);
        w[i].iov_base = t + off;
        off += w[i].iov_len;
    }
    mix_bytes (s, t, total);
    r = hev_task_cio_next_writev (c, w, n);
    free (t);
    free (w);
    return r;
}

static void
mix_destruct (HevObject *o)
{
    struct mix *s = (struct mix *)o;
    void (*up) (HevObject *) = HEV_TASK_CIO_TYPE->destruct;

    (*s->finalized)++;
    up (o);
    hev_free (o);
}

void *
sh_mix_new (int key, size_t cap, int *finalized)
{
    struct mix *s = hev_malloc0 (sizeof (*s));

    if (!s)
        return NULL;
    hev_task_cio_construct (&s->base);
    memcpy (&s->k, HEV_TASK_CIO_TYPE, sizeof (s->k));
    s->k.base.destruct = mix_destruct;
    s->k.read = mix_read;
    s->k.write = mix_write;
    s->k.readv = mix_readv;
    s->k.writev = mix_writev;
    s->base.base.klass = &s->k.base;
    s->key = key;
    s->cap = cap;
    s->finalized = finalized;
    return s;
}
