/* life cycle of statements, blocks, strides and loops against a shadow model; every block of memory released exactly once */
#include "dom.h"
#define MX 40
void *h_malloc(size_t); char *h_strdup(const char *);
struct sh { int number; char name[8]; void *usr; };
static int same(CloogStatement *s, struct sh *w, int n) { int i; for (i = 0; i < n; i++, s = s->next) { if (!s) return 0; if (s->number != w[i].number || s->usr != w[i].usr || (w[i].name[0] ? !s->name || strcmp(s->name, w[i].name) : s->name != NULL)) return 0; } return s == NULL; }
static CloogStatement *mkst(struct sh *w) { CloogStatement *s = cloog_statement_alloc(state, w->number = h_rnd(0, 99)); need(s && !s->next && s->number == w->number && !s->name && !s->usr, "fresh statement"); w->name[0] = 0; w->usr = NULL; if (h_coin(2)) { sprintf(w->name, "S%d", h_rnd(0, 9)); s->name = h_strdup(w->name); } if (h_coin(2)) { w->usr = &w[h_rnd(0, 3)]; s->usr = w->usr; } return s; }
static CloogStatement *mklist(struct sh *w, int n) { CloogStatement *start = NULL, *now = NULL; int i; for (i = 0; i < n; i++) { cloog_statement_add(&start, &now, mkst(&w[i])); need(now && !now->next, "list end"); } need(same(start, w, n), "statement list content after adding"); return start; }
static CloogBlock *mkb(struct sh *w, int n) { CloogBlock *b; if (n) return cloog_block_alloc(mklist(w, n), 0, NULL, 1); b = cloog_block_malloc(state); need(b && b->references == 1 && !b->statement && !b->scaldims && !b->nb_scaldims, "fresh block"); return b; }
static int usable(CloogState *s) { return !mpz_cmp_si(s->zero, 0) && !mpz_cmp_si(s->one, 1) && !mpz_cmp_si(s->negone, -1); }
static void op(int f)
{
  struct sh w[MX], x[MX]; int n = h_rnd(0, 6), m = h_rnd(0, 6), i, j; CloogStatement *s, *t; CloogBlock *b, *b2;
  switch (f) {
  case 0: h_d("statement list of %d", n); s = mklist(w, n); cloog_statement_free(s); break;
  case 1: h_d("statement copy of %d", n); s = mklist(w, n); t = cloog_statement_copy(s); need(same(t, w, n), "copied statement list"); need(same(s, w, n), "copy changed the original"); { CloogStatement *p, *q; for (p = s; p; p = p->next) for (q = t; q; q = q->next) need(p != q && (!p->name || p->name != q->name), "copy shares memory"); } if (h_coin(2)) { cloog_statement_free(s); need(same(t, w, n), "copy after freeing the original"); cloog_statement_free(t); } else { cloog_statement_free(t); need(same(s, w, n), "original after freeing the copy"); cloog_statement_free(s); } break;
  case 2: case 3: { cloog_int_t *sc = NULL; int ns = h_rnd(0, 3), refs = 1; long sv[3]; if (!n) n = 1; h_d("block with %d statements, %d scalars", n, ns); s = mklist(w, n); if (ns) { sc = h_malloc(ns * sizeof *sc); for (i = 0; i < ns; i++) { mpz_init(sc[i]); mpz_set_si(sc[i], sv[i] = h_rnd(-9, 9)); } } b = cloog_block_alloc(s, ns, sc, h_rnd(1, 4)); need(b && b->references == 1 && same(b->statement, w, n) && b->nb_scaldims == ns, "fresh block");
    for (i = h_rnd(1, 8); i; i--) if (h_coin(2)) { need(cloog_block_copy(b) == b, "block copy is not a reference"); refs++; h_d(" copy"); } else if (refs > 1) { cloog_block_free(b); refs--; h_d(" free"); }
    need(b->references == refs, "reference count"); need(same(b->statement, w, n), "block content"); for (i = 0; i < ns; i++) need(geti(b->scaldims[i]) == sv[i], "scalar dimension changed"); while (refs--) cloog_block_free(b); break; }
  case 4: case 5: h_d("block merge %d+%d", n, m); b = mkb(w, n); b2 = mkb(x, m); if (h_coin(2)) cloog_block_copy(b), i = 2; else i = 1; cloog_block_merge(b, b2); for (j = 0; j < m; j++) w[n + j] = x[j]; need(same(b->statement, w, n + m), "merged statement list"); need(b->references == i, "references after merge"); while (i--) cloog_block_free(b); break;
  case 6: { CloogBlockList *l = NULL, *e; h_d("block list of %d", n); for (i = 0; i < n; i++) { b = mkb(w, h_rnd(0, 2)); e = cloog_block_list_alloc(b); need(b->references == 2, "references of a listed block"); cloog_block_free(b); need(e && e->block == b && !e->next, "fresh list element"); e->next = l; l = e; } cloog_block_list_free(l); break; }
  case 7: { cloog_int_t a, c; CloogStride *st; int refs = 1; cloog_int_init(a); cloog_int_init(c); cloog_int_set_si(a, h_rnd(1, 9)); cloog_int_set_si(c, h_rnd(0, 9)); h_d("stride"); st = cloog_stride_alloc(a, c); need(!mpz_cmp(st->stride, a) && !mpz_cmp(st->offset, c) && !st->constraint && !mpz_sgn(st->factor), "fresh stride"); for (i = h_rnd(1, 8); i; i--) if (h_coin(2)) { need(cloog_stride_copy(st) == st, "stride copy"); refs++; } else if (refs > 1) { cloog_stride_free(st); refs--; } need(st->references == refs && !mpz_cmp(st->stride, a), "stride references"); while (refs--) cloog_stride_free(st); need(cloog_stride_copy(NULL) == NULL, "copy of no stride"); cloog_stride_free(NULL); cloog_int_clear(a); cloog_int_clear(c); break; }
  case 8: { cloog_int_t a, c; CloogStride *st; isl_constraint *k = isl_constraint_alloc_equality(isl_local_space_from_space(isl_space_set_alloc(ctx, np, nd))), *k2; int refs = 1; cloog_int_init(a); cloog_int_init(c); cloog_int_set_si(a, h_rnd(2, 9)); cloog_int_set_si(c, h_rnd(0, 9)); h_d("stride from constraint"); k2 = isl_constraint_copy(k); st = cloog_stride_alloc_from_constraint(a, (CloogConstraint *)k, c); need(!mpz_cmp(st->stride, a) && !mpz_cmp(st->factor, c) && st->constraint == (CloogConstraint *)k, "fresh stride"); isl_constraint_free(k2); for (i = h_rnd(1, 5); i; i--) { cloog_stride_copy(st); refs++; } while (refs--) cloog_stride_free(st); cloog_int_clear(a); cloog_int_clear(c); break; }
  }
}
int main(int argc, char **argv)
{
  h_init(argc, argv);
  while (h_more()) {
    long live = h_live; ctx = isl_ctx_alloc(); isl_options_set_on_error(ctx, ISL_ON_ERROR_ABORT); state = cloog_isl_state_malloc(ctx); need(usable(state), "constants of a fresh state"); nd = h_rnd(1, 3); np = h_rnd(0, 2); sp();
    op(h_rnd(0, 8)); need(usable(state), "constants of the state changed");
    if (state->statement_allocated != state->statement_freed || state->block_allocated != state->block_freed) h_fail("allocation counters of the state do not balance");
    cloog_state_free(state); h_d(" (references at the end)"); isl_ctx_free(ctx); if (h_live != live) h_fail("memory leaked (%ld blocks)", h_live - live); if (h_badfree) h_fail("bad free");
  }
  return h_done();
}
