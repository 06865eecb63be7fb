# end-to-end demonstration: generate code for the given domains, run it, compare with the points of the domains
PRE = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <cloog/cloog.h>
#include <cloog/isl/cloog.h>
#include <isl/ctx.h>
#include <isl/val.h>
#include <isl/point.h>
#include <isl/space.h>
#include <isl/set.h>
#include <isl/map.h>
#include <isl/aff.h>
#include <isl/constraint.h>
#include <isl/local_space.h>
static const char *vn[64]; static long vv[64]; static int nv; static long cnt[8][4096]; static int bad;
static long fd(long a, long b) { long q = a / b; return q * b > a ? q - 1 : q; }
static long ev(struct clast_expr *e)
{
  if (e->type == clast_expr_name) { int k; const char *s = ((struct clast_name *)e)->name; for (k = nv - 1; k >= 0; k--) if (!strcmp(vn[k], s)) return vv[k]; printf("undefined name %s\n", s); exit(1); }
  if (e->type == clast_expr_term) { struct clast_term *t = (void *)e; long c = mpz_get_si(t->val); return t->var ? c * ev(t->var) : c; }
  if (e->type == clast_expr_bin) { struct clast_binary *b = (void *)e; long x = ev(b->LHS), d = mpz_get_si(b->RHS); return b->type == clast_bin_fdiv ? fd(x, d) : b->type == clast_bin_cdiv ? -fd(-x, d) : b->type == clast_bin_div ? x / d : x - d * fd(x, d); }
  { struct clast_reduction *r = (void *)e; int k; long x = 0; for (k = 0; k < r->n; k++) { long y = ev(r->elts[k]); if (r->type == clast_red_sum) x += y; else if (k == 0 || (r->type == clast_red_min ? y < x : y > x)) x = y; } return x; }
}
static int key(int n, long *v) { int k, r = 0; for (k = 0; k < n; k++) { if (v[k] < -8 || v[k] > 55) return -1; r = (k == 0) ? v[k] + 8 : r * 64 + v[k] + 8; } return n > 2 ? -1 : r; }
static void run(struct clast_stmt *s)
{
  for (; s; s = s->next) { int k = nv;
    if (CLAST_STMT_IS_A(s, stmt_root)) continue;
    else if (CLAST_STMT_IS_A(s, stmt_ass)) { struct clast_assignment *a = (void *)s; vn[nv] = a->LHS; vv[nv] = ev(a->RHS); nv++; }
    else if (CLAST_STMT_IS_A(s, stmt_block)) { run(((struct clast_block *)s)->body); nv = k; }
    else if (CLAST_STMT_IS_A(s, stmt_guard)) { struct clast_guard *g = (void *)s; int i, ok = 1; for (i = 0; i < g->n && ok; i++) { long l = ev(g->eq[i].LHS), r = ev(g->eq[i].RHS); ok = g->eq[i].sign == 0 ? l == r : g->eq[i].sign > 0 ? l >= r : l <= r; } if (ok) run(g->then); nv = k; }
    else if (CLAST_STMT_IS_A(s, stmt_for)) { struct clast_for *f = (void *)s; long i, lb = ev(f->LB), ub = ev(f->UB), st = mpz_get_si(f->stride); for (i = lb; i <= ub; i += st) { vn[nv] = f->iterator; vv[nv] = i; nv++; run(f->body); nv = k; } }
    else if (CLAST_STMT_IS_A(s, stmt_user)) { struct clast_user_stmt *u = (void *)s; struct clast_stmt *t; long v[8]; int n = 0, q; for (t = u->substitutions; t; t = t->next) v[n++] = ev(((struct clast_assignment *)t)->RHS); q = key(n, v); if (q < 0) { printf("S%d executed outside\n", u->statement->number); bad = 1; } else cnt[u->statement->number - 1][q]++; }
  }
}
static int cur, dim;
static isl_stat onpt(isl_point *p, void *u) { int i; long v[8]; for (i = 0; i < dim; i++) { isl_val *x = isl_point_get_coordinate_val(p, isl_dim_set, i); v[i] = isl_val_get_num_si(x); isl_val_free(x); } cnt[cur][key(dim, v)]--; isl_point_free(p); return isl_stat_ok; }
static void tune(CloogOptions *o);
/* domains in one parameter M (or none) and at most two dimensions with values in -8..55 */
static int check(int ns, const char **dom, const char *ctxt, int np, int lo, int hi)
{
  isl_ctx *ctx = isl_ctx_alloc(); CloogState *st = cloog_isl_state_malloc(ctx); CloogOptions *o = cloog_options_malloc(st); CloogUnionDomain *ud = cloog_union_domain_alloc(np); struct clast_stmt *root; int i, p, k; char nm[8];
  o->quiet = 1; tune(o); if (np) cloog_union_domain_set_name(ud, CLOOG_PARAM, 0, "M");
  for (i = 0; i < ns; i++) { sprintf(nm, "S%d", i + 1); ud = cloog_union_domain_add_domain(ud, nm, cloog_domain_from_isl_set(isl_set_read_from_str(ctx, dom[i])), NULL, NULL); }
  root = cloog_clast_create_from_input(cloog_input_alloc(cloog_domain_from_isl_set(isl_set_read_from_str(ctx, ctxt)), ud), o);
  for (p = lo; p <= hi; p++) {
    memset(cnt, 0, sizeof cnt); nv = 0; bad = 0; if (np) { vn[0] = "M"; vv[0] = p; nv = 1; } run(root);
    for (i = 0; i < ns; i++) { isl_set *s = isl_set_read_from_str(ctx, dom[i]); if (np) s = isl_set_project_out(isl_set_fix_si(s, isl_dim_param, 0, p), isl_dim_param, 0, 1); cur = i; dim = isl_set_dim(s, isl_dim_set); isl_set_foreach_point(s, onpt, NULL); isl_set_free(s); }
    for (i = 0; i < ns; i++) for (k = 0; k < 4096; k++) if (cnt[i][k]) { printf("M=%d: an instance of S%d is executed %ld times too often\n", p, i + 1, cnt[i][k]); bad = 1; }
    if (bad) return 1;
  }
  return 0;
}
'''
