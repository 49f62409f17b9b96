/* C side of tree.hpp */
#include <stdlib.h>
#include <string.h>

#define N 1024

#if __has_include("lib/rbtree/hev-rbtree-cached.h") && \
    __has_include("lib/list/hev-list.h")
#include "lib/list/hev-list.h"
#include "lib/rbtree/hev-rbtree-cached.h"

int
sht_have (void)
{
    return 1;
}

struct el {
    long key;
    HevRBTreeNode n;
};
struct tree {
    int cached;
    HevRBTreeCached t;
    struct el e[N];
};

#define EL(p) ((struct el *)((char *)(p)-offsetof (struct el, n)))

static int
id_of (struct tree *t, HevRBTreeNode *n)
{
    long i;

    if (!n)
        return -1;
    i = EL (n) - t->e;
    /* anything else is not an element */
    return i < 0 || i >= N || &t->e[i].n != n ? -2 : i;
}

void *
sht_new (int cached)
{
    struct tree *t = malloc (sizeof (*t));

    memset (t, 0xdd, sizeof (*t));
    t->cached = cached;
    memset (&t->t, 0, sizeof (t->t));
    return t;
}

void
sht_free (void *t)
{
    free (t);
}

void
sht_insert (void *v, int id, long key, int after)
{
    struct tree *t = v;
    HevRBTreeNode **l = &t->t.base.root, *parent = NULL;
    int leftmost = 1;

    t->e[id].key = key;
    while (*l) {
        parent = *l;
        if (key < EL (parent)->key || (key == EL (parent)->key && !after)) {
            l = &parent->left;
        } else {
            l = &parent->right;
            leftmost = 0;
        }
    }
    hev_rbtree_node_link (&t->e[id].n, parent, l);
    if (t->cached)
        hev_rbtree_cached_insert_color (&t->t, &t->e[id].n, leftmost);
    else
        hev_rbtree_insert_color (&t->t.base, &t->e[id].n);
}

void
sht_erase (void *v, int id)
{
    struct tree *t = v;

    if (t->cached)
        hev_rbtree_cached_erase (&t->t, &t->e[id].n);
    else
        hev_rbtree_erase (&t->t.base, &t->e[id].n);
    memset (&t->e[id], 0xdd, sizeof (t->e[id]));
}

void
sht_replace (void *v, int victim, int id, long key)
{
    struct tree *t = v;

    t->e[id].key = key;
    if (t->cached)
        hev_rbtree_cached_replace (&t->t, &t->e[victim].n, &t->e[id].n);
    else
        hev_rbtree_replace (&t->t.base, &t->e[victim].n, &t->e[id].n);
    memset (&t->e[victim], 0xdd, sizeof (t->e[victim]));
}

int
sht_first (void *v)
{
    struct tree *t = v;
    return id_of (t, hev_rbtree_first (&t->t.base));
}

int
sht_last (void *v)
{
    struct tree *t = v;
    return id_of (t, hev_rbtree_last (&t->t.base));
}

int
sht_cached_first (void *v)
{
    struct tree *t = v;
    return id_of (t, hev_rbtree_cached_first (&t->t));
}

int
sht_next (void *v, int id)
{
    struct tree *t = v;
    return id_of (t, hev_rbtree_node_next (&t->e[id].n));
}

int
sht_prev (void *v, int id)
{
    struct tree *t = v;
    return id_of (t, hev_rbtree_node_prev (&t->e[id].n));
}

static int
depth (struct tree *t, HevRBTreeNode *n, HevRBTreeNode *parent, int d)
{
    int a, b;

    if (!n)
        return d;
    if (d > 60 || id_of (t, n) < 0 || hev_rbtree_node_parent (n) != parent)
        return -1;
    a = depth (t, n->left, n, d + 1);
    b = depth (t, n->right, n, d + 1);
    return a < 0 || b < 0 ? -1 : a > b ? a : b;
}

int
sht_depth (void *v)
{
    struct tree *t = v;
    return depth (t, t->t.base.root, NULL, 0);
}

struct list {
    HevList l;
    HevListNode n[N];
};

void *
shl_new (void)
{
    struct list *l = malloc (sizeof (*l));

    memset (l, 0xdd, sizeof (*l));
    memset (&l->l, 0, sizeof (l->l));
    return l;
}

void
shl_free (void *l)
{
    free (l);
}

static int
lid (struct list *l, HevListNode *n)
{
    long i;

    if (!n)
        return -1;
    i = n - l->n;
    return i < 0 || i >= N || &l->n[i] != n ? -2 : i;
}

void
shl_add (void *v, int id)
{
    struct list *l = v;
    hev_list_add_tail (&l->l, &l->n[id]);
}

void
shl_del (void *v, int id)
{
    struct list *l = v;
    hev_list_del (&l->l, &l->n[id]);
    memset (&l->n[id], 0xdd, sizeof (l->n[id]));
}

int
shl_first (void *v)
{
    struct list *l = v;
    return lid (l, hev_list_first (&l->l));
}

int
shl_last (void *v)
{
    struct list *l = v;
    return lid (l, hev_list_last (&l->l));
}

int
shl_next (void *v, int id)
{
    struct list *l = v;
    return lid (l, hev_list_node_next (&l->n[id]));
}

int
shl_prev (void *v, int id)
{
    struct list *l = v;
    return lid (l, hev_list_node_prev (&l->n[id]));
}

#else

int
sht_have (void)
{
    return 0;
}
#define NONE(r, n, ...)                                                        \
    r n (__VA_ARGS__)                                                          \
    {                                                                          \
        abort ();                                                              \
    }
NONE (void *, sht_new, int c)
NONE (void, sht_free, void *t)
NONE (void, sht_insert, void *t, int id, long key, int after)
NONE (void, sht_erase, void *t, int id)
NONE (void, sht_replace, void *t, int victim, int id, long key)
NONE (int, sht_first, void *t)
NONE (int, sht_last, void *t)
NONE (int, sht_cached_first, void *t)
NONE (int, sht_next, void *t, int id)
NONE (int, sht_prev, void *t, int id)
NONE (int, sht_depth, void *t)
NONE (void *, shl_new, void)
NONE (void, shl_free, void *l)
NONE (void, shl_add, void *l, int id)
NONE (void, shl_del, void *l, int id)
NONE (int, shl_first, void *l)
NONE (int, shl_last, void *l)
NONE (int, shl_next, void *l, int id)
NONE (int, shl_prev, void *l, int id)
#endif
