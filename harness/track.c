#include <stdlib.h>
#include <string.h>
#include <stdio.h>
long h_live, h_badfree;
#define NB (1 << 16)
struct n { void *p; struct n *next; };
static struct n *tab[NB];
static unsigned hsh(void *p) { return ((unsigned long)p >> 4) % NB; }
static void add(void *p) { struct n *x; if (!p) return; x = malloc(sizeof *x); x->p = p; x->next = tab[hsh(p)]; tab[hsh(p)] = x; h_live++; }
static void del(void *p) { struct n **q = &tab[hsh(p)], *x; for (; *q; q = &(*q)->next) if ((*q)->p == p) { x = *q; *q = x->next; free(x); h_live--; return; } }
void *h_malloc(size_t n) { void *p = malloc(n); memset(p, 0xA5, n); add(p); return p; }
void *h_calloc(size_t a, size_t b) { void *p = calloc(a, b); add(p); return p; }
void *h_realloc(void *p, size_t n) { void *q; if (p) del(p); q = realloc(p, n); add(q); return q; }
char *h_strdup(const char *s) { char *p = malloc(strlen(s) + 1); strcpy(p, s); add(p); return p; }
void h_free(void *p) { if (p) del(p); free(p); }
const char *cloog_version(void) { return "CLooG harness"; }
int cloog_version_major(void) { return 0; }
int cloog_version_minor(void) { return 21; }
int cloog_version_revision(void) { return 1; }
