/* The library's internal tree and list, reached through shim_tree.c because
 * their headers are C only.  When they are not where they used to be,
 * sht_have() is 0. */
#ifndef TREE_HPP
#define TREE_HPP

extern "C" {
int sht_have (void);
void *sht_new (int cached);
void sht_free (void *t);
/* node ids are 0..1023; keys are compared; after: behind equal keys */
void sht_insert (void *t, int id, long key, int after);
void sht_erase (void *t, int id);
void sht_replace (void *t, int victim, int id, long key);
int sht_first (void *t); /* -1: none */
int sht_last (void *t);
int sht_cached_first (void *t);
int sht_next (void *t, int id);
int sht_prev (void *t, int id);
/* depth of the deepest element; -1 if the links are inconsistent */
int sht_depth (void *t);

void *shl_new (void);
void shl_free (void *l);
void shl_add (void *l, int id);
void shl_del (void *l, int id);
int shl_first (void *l);
int shl_last (void *l);
int shl_next (void *l, int id);
int shl_prev (void *l, int id);
}

#endif
