/* oracle for bounds: expressions built from random constraints, compared with the constraints at random points */
#include "common.h"
#include "alloc.h"
#include "../source/clast.c"
#include <cloog/isl/cloog.h>
#include <cloog/isl/constraintset.h>
#include "isl_rand.h"
static void bound(isl_constraint *c, int lev, CloogNames *names)
{
  long a = r_coef(c, lev - 1); struct clast_expr *e; int k;
  if (!r_clean(c, lev - 1)) return;
  h_reset(); h_d("bound of variable %d from", lev); r_show(c);
  e = clast_bound_from_constraint(cloog_constraint_from_isl_constraint(c), lev, names);
  if (!a) { if (e) h_fail("a bound for a variable the constraint does not involve"); return; }
  if (!e) h_fail("no bound for a variable the constraint involves");
  for (k = 0; k < 6; k++) {
    long b, d; r_point(); r_v[lev - 1] = 0; b = r_ev(e);
    if (isl_constraint_is_equality(c)) { long R = r_value(c); if (R % a == 0 && b != -R / a) h_fail("at (%ld,%ld,%ld,%ld; %ld,%ld,%ld) the bound is %ld, the equation has solution %ld", r_v[0], r_v[1], r_v[2], r_v[3], r_p[0], r_p[1], r_p[2], b, -R / a); continue; }
    for (d = -1; d <= 1; d++) { long x; r_v[lev - 1] = b + d; x = r_value(c); if ((x >= 0) != (a > 0 ? d >= 0 : d <= 0)) { r_v[lev - 1] = 0; h_fail("at (%ld,%ld,%ld,%ld; %ld,%ld,%ld) the bound is %ld but the constraint has value %ld at %ld", r_v[0], r_v[1], r_v[2], r_v[3], r_p[0], r_p[1], r_p[2], b, x, b + d); } }
    r_v[lev - 1] = 0;
  }
  free_clast_expr(e);
}
/* which values the statement put into the tree gives the iterator of the level, against all bounds of the level */
static void loop_stmt(isl_basic_set *b, int lev, CloogNames *names, CloogState *state, CloogOptions *opt)
{
  struct clast_stmt *root = NULL, **next = &root; CloogInfos infos; CloogStride *st[MXV] = {0}; int i, k, otl = h_coin(2), lo = 0, up = 0, r, oo = opt->otl, ob = opt->block, cst = 1, j;
  for (i = 0; i < r_nc; i++) { long a = r_coef(r_cons[i], lev - 1); if (!r_clean(r_cons[i], lev - 1)) return; if (isl_constraint_is_div_constraint(r_cons[i]) || isl_constraint_is_equality(r_cons[i])) continue;
    if (a > 0) lo = 1; if (a < 0) up = 1; if (a) for (j = 0; j < r_total(r_cons[i]); j++) if (j != lev - 1 && r_coef(r_cons[i], j)) cst = 0; }
  if (!lo || !up) return;
  memset(&infos, 0, sizeof infos); infos.names = names; infos.state = state; infos.options = opt; infos.stride = st; infos.stride_level = lev; opt->otl = 0; opt->block = h_coin(3);
  h_d(" loop statement: level=%d otl=%d block=%d", lev, otl, opt->block);
  r = insert_for(NULL, cloog_constraint_set_from_isl_basic_set(b), lev, otl, &next, &infos);
  for (k = 0; k < 6; k++) {
    long L = 0, U = 0, x = 0, y = -1; int al = 0, au = 0; struct clast_stmt *s; r_point(); r_v[lev - 1] = 0;
    for (i = 0; i < r_nc; i++) { isl_constraint *c = r_cons[i]; long a = r_coef(c, lev - 1), q;
      if (isl_constraint_is_div_constraint(c) || isl_constraint_is_equality(c) || !a) continue;
      if (a > 0) { q = -r_fdiv(r_value(c), a); if (!al || q > L) L = q; al = 1; } else { q = r_fdiv(r_value(c), -a); if (!au || q < U) U = q; au = 1; } }
    if (!r) { if (root) h_fail("a statement although there is no iteration"); if (L <= U) h_fail("no statement although %ld..%ld are iterations", L, U); continue; }
    for (s = root; s; ) {
      if (CLAST_STMT_IS_A(s, stmt_block)) s = ((struct clast_block *)s)->body;
      else if (CLAST_STMT_IS_A(s, stmt_for)) { x = r_ev(((struct clast_for *)s)->LB); y = r_ev(((struct clast_for *)s)->UB); s = ((struct clast_for *)s)->body; }
      else if (CLAST_STMT_IS_A(s, stmt_ass)) { x = y = r_ev(((struct clast_assignment *)s)->RHS); r_v[lev - 1] = x; s = s->next; }
      else { struct clast_guard *g = (struct clast_guard *)s; for (i = 0; i < g->n; i++) { long p = r_ev(g->eq[i].LHS), q = r_ev(g->eq[i].RHS); if (!(g->eq[i].sign == 0 ? p == q : g->eq[i].sign > 0 ? p >= q : p <= q)) y = x - 1; } s = g->then; } }
    if (otl && L < U) U = L;
    if (L <= U ? x != L || y != U : x <= y) h_fail("at (%ld,%ld,%ld,%ld; %ld,%ld,%ld) the iterations are %ld..%ld, expected %ld..%ld", r_v[0], r_v[1], r_v[2], r_v[3], r_p[0], r_p[1], r_p[2], x, y, L, U);
  }
  cloog_clast_free(root); opt->otl = oo; opt->block = ob;
}
int main(int argc, char **argv)
{
  isl_ctx *ctx = isl_ctx_alloc(); CloogState *state = cloog_isl_state_malloc(ctx); CloogOptions *opt = cloog_options_malloc(state); char txt[20000];
  h_init(argc, argv); isl_options_set_on_error(ctx, 0);
  while (h_more()) {
    int i, k, nscat = h_rnd(0, 2); isl_basic_set *b; CloogNames *names; long live;
    r_big = h_coin(4); r_nd = h_rnd(1, 4); r_np = h_rnd(0, 3); b = r_bset(ctx, h_rnd(1, 4), h_coin(3), h_coin(3), txt);
    if (!b) continue;
    h_d("%s", txt);
    names = r_names(nscat); live = h_live;
    r_nc = 0; isl_basic_set_foreach_constraint(b, r_col, NULL);
    if (h_coin(4)) loop_stmt(b, h_rnd(1, r_nd), names, state, opt);
    else if (h_coin(2)) {
      int lev = h_rnd(1, r_nd);
      for (i = 0; i < r_nc; i++) bound(r_cons[i], lev, names);
      /* constraints that isl has not normalised, as the stride and equality code builds them */
      for (k = 0; k < 4; k++) { isl_local_space *ls = isl_local_space_from_space(isl_basic_set_get_space(b)); int few = h_coin(2);
        isl_constraint *c = h_coin(4) ? isl_equality_alloc(ls) : isl_inequality_alloc(ls);
        for (i = 0; i < r_nd; i++) if (i == lev - 1 || !few) c = isl_constraint_set_coefficient_si(c, isl_dim_set, i, r_num()); for (i = 0; i < r_np; i++) if (!few || h_coin(3)) c = isl_constraint_set_coefficient_si(c, isl_dim_param, i, r_num());
        c = isl_constraint_set_constant_si(c, h_coin(2) ? h_rnd(-9, 9) : r_num()); bound(c, lev, names); isl_constraint_free(c); }
    } else {
      /* loop bounds: extremum over all and only the relevant constraints, adjusted to the stride */
      int lev = h_rnd(1, r_nd), max = h_coin(2), guard = h_coin(3) ? h_rnd(1, r_nd) : 0, lower = max && h_coin(2), noe = h_coin(4), any = 0, ok = 1, strided = 0, j; struct clast_expr *e; CloogInfos infos; CloogStride *st[MXV] = {0}; long s = 1, off = 0; isl_constraint *sc = NULL; long kk = 0, f = 0;
      memset(&infos, 0, sizeof infos); infos.names = names; infos.state = state; infos.options = opt; infos.stride = st;
      for (i = 0; i < r_nc; i++) if (!r_clean(r_cons[i], lev - 1)) ok = 0;
      if (lower && h_coin(2) && ok) {
        mpz_t z, o; s = h_rnd(2, 7); mpz_init(z); mpz_init(o); mpz_set_si(z, s);
        if (h_coin(2)) { off = h_rnd(-9, 9); mpz_set_si(o, off); st[lev - 1] = cloog_stride_alloc(z, o); strided = 1; }
        else { /* stride constraint e + k i = s a with f k = -1 mod s, e over parameters and outer iterators */
          isl_local_space *ls = isl_local_space_from_space(isl_basic_set_get_space(b)); do { kk = h_rnd(-5, 5); for (f = 1; f < s; f++) if ((f * kk + 1) % s == 0) break; } while (kk == 0 || f >= s);
          sc = isl_equality_alloc(ls); for (i = 0; i < lev - 1; i++) sc = isl_constraint_set_coefficient_si(sc, isl_dim_set, i, r_num() % 10); for (i = 0; i < r_np; i++) sc = isl_constraint_set_coefficient_si(sc, isl_dim_param, i, r_num() % 10);
          sc = isl_constraint_set_constant_si(sc, r_num()); sc = isl_constraint_set_coefficient_si(sc, isl_dim_set, lev - 1, kk); mpz_set_si(o, f);
          h_d(" stride %ld factor %ld constraint", s, f); r_show(sc);
          st[lev - 1] = cloog_stride_alloc_from_constraint(z, cloog_constraint_from_isl_constraint(isl_constraint_copy(sc)), o); strided = 2; }
        mpz_clear(z); mpz_clear(o);
      }
      if (strided == 1) h_d(" stride %ld offset %ld", s, off);
      h_d(" level=%d max=%d guard=%d lower=%d no_earlier=%d", lev, max, guard, lower, noe);
      if (ok) {
        e = clast_minmax(cloog_constraint_set_from_isl_basic_set(b), lev, max, guard, lower, noe, &infos);
        for (k = 0; k < 5; k++) {
          long best = 0, v; any = 0; r_point();
          for (i = 0; i < r_nc; i++) { isl_constraint *c = r_cons[i]; long a = r_coef(c, lev - 1), R, q; int rel = 1, nv = 0;
            if (isl_constraint_is_div_constraint(c) || isl_constraint_is_equality(c) || (max ? a <= 0 : a >= 0)) continue;
            if (guard && r_coef(c, guard - 1)) rel = 0;
            if (noe) for (j = 0; j < lev - 1; j++) if (r_coef(c, j)) rel = 0;
            if (!rel) continue;
            for (j = 0; j < r_total(c); j++) if (j != lev - 1 && r_coef(c, j)) nv++;
            r_v[lev - 1] = 0; R = r_value(c); q = a > 0 ? -r_fdiv(R, a) : r_fdiv(R, -a);
            if (strided == 2) { off = f * r_value(sc); q = off - s * r_fdiv(off - q, s); } if (strided == 1 && nv == 0) q = off - s * r_fdiv(off - q, s);
            if (!any || (max ? q > best : q < best)) best = q; any = 1; }
          if (!any) { if (e) h_fail("a bound although no constraint is relevant"); break; }
          if (!e) h_fail("no bound although some constraint is relevant");
          v = r_ev(e); if (v != best) h_fail("at (%ld,%ld,%ld,%ld; %ld,%ld,%ld) the bound is %ld, expected %ld", r_v[0], r_v[1], r_v[2], r_v[3], r_p[0], r_p[1], r_p[2], v, best);
        }
        free_clast_expr(e);
      }
      for (i = 0; i < MXV; i++) if (st[i]) cloog_stride_free(st[i]); isl_constraint_free(sc);
    }
    if (h_live != live) { h_d(" in %s", txt); h_fail("memory leaked (%ld blocks)", h_live - live); }
    for (i = 0; i < r_nc; i++) isl_constraint_free(r_cons[i]);
    isl_basic_set_free(b); cloog_names_free(names);
  }
  return h_done();
}
