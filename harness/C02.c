/* oracle for guards: modulo guards and ordinary guards built from random constraints, compared with the constraints at random points */
#include "common.h"
#include "alloc.h"
#include "../source/clast.c"
#include <cloog/isl/cloog.h>
#include <cloog/isl/constraintset.h>
#include "isl_rand.h"
static int guards(struct clast_stmt *s)
{
  while (s) {
    struct clast_guard *g = (void *)s; int k; if (!CLAST_STMT_IS_A(s, stmt_guard)) h_fail("something else than a guard was inserted"); if (s->next) h_fail("statements after a guard");
    for (k = 0; k < g->n; k++) { long l, r; if (!g->eq[k].LHS || !g->eq[k].RHS) h_fail("incomplete condition"); l = r_ev(g->eq[k].LHS); r = r_ev(g->eq[k].RHS); if (g->eq[k].sign == 0 ? l != r : g->eq[k].sign > 0 ? l < r : l > r) return 0; }
    s = g->then;
  }
  return 1;
}
static struct clast_stmt **last(struct clast_stmt **p) { while (*p) p = &((struct clast_guard *)*p)->then; return p; }
static CloogNames *names_exact(int nscat) { CloogNames *n = r_names(nscat); int k; for (k = r_np; k < 3; k++) free(n->parameters[k]); n->nb_parameters = r_np; return n; }
static CloogStride *st[MXV]; static isl_constraint *sc[MXV]; static long ss[MXV], so[MXV], sf[MXV];
static void strides(isl_space *sp, int lev)
{
  int l, i; mpz_t z, o; mpz_init(z); mpz_init(o);
  for (l = 0; l < MXV; l++) { st[l] = NULL; sc[l] = NULL; }
  for (l = 0; l < lev; l++) if (h_coin(2)) {
    ss[l] = h_coin(3) ? h_rnd(2, 4) * h_rnd(2, 4) : h_rnd(2, 7); mpz_set_si(z, ss[l]);
    if (h_coin(2)) { so[l] = h_rnd(-9, 9); mpz_set_si(o, so[l]); st[l] = cloog_stride_alloc(z, o); h_d(" level %d: stride %ld offset %ld;", l + 1, ss[l], so[l]); }
    else { long kk, f; isl_constraint *c = isl_equality_alloc(isl_local_space_from_space(isl_space_copy(sp)));
      do { kk = h_rnd(-5, 5); for (f = 1; f < ss[l]; f++) if ((f * kk + 1) % ss[l] == 0) break; } while (kk == 0 || f >= ss[l]);
      for (i = 0; i < l; i++) c = isl_constraint_set_coefficient_si(c, isl_dim_set, i, h_coin(2) ? 0 : r_num() % 10);
      for (i = 0; i < r_np; i++) c = isl_constraint_set_coefficient_si(c, isl_dim_param, i, r_num() % 10);
      c = isl_constraint_set_constant_si(c, r_num() % 20); sc[l] = isl_constraint_set_coefficient_si(c, isl_dim_set, l, kk); sf[l] = f; mpz_set_si(o, f);
      h_d(" level %d: stride %ld factor %ld constraint", l + 1, ss[l], f); r_show(sc[l]); h_d(";");
      st[l] = cloog_stride_alloc_from_constraint(z, cloog_constraint_from_isl_constraint(isl_constraint_copy(sc[l])), o); }
  }
  mpz_clear(z); mpz_clear(o); isl_space_free(sp);
}
static void on_strides(int lev) { int l; for (l = 0; l < lev; l++) if (st[l]) { long o = so[l]; if (sc[l]) { r_v[l] = 0; o = sf[l] * r_value(sc[l]); } r_v[l] = o + ss[l] * h_rnd(-6, 6); } }
static int contradicted(isl_basic_set *b, int lev)
{
  int l, e; isl_set *s = isl_set_from_basic_set(isl_basic_set_copy(b));
  for (l = 0; l < lev; l++) if (st[l]) { isl_ctx *ctx = isl_basic_set_get_ctx(b); isl_aff *x = isl_aff_var_on_domain(isl_local_space_from_space(isl_basic_set_get_space(b)), isl_dim_set, l), *o;
    if (sc[l]) { o = isl_aff_set_coefficient_si(isl_constraint_get_aff(sc[l]), isl_dim_in, l, 0); o = isl_aff_scale_val(o, isl_val_int_from_si(ctx, sf[l])); x = isl_aff_sub(x, o); }
    else x = isl_aff_add_constant_si(x, -so[l]);
    x = isl_aff_mod_val(x, isl_val_int_from_si(ctx, ss[l])); s = isl_set_intersect(s, isl_set_from_basic_set(isl_aff_zero_basic_set(x))); }
  e = isl_set_is_empty(s); isl_set_free(s); return e;
}
static void strides_free(void) { int l; for (l = 0; l < MXV; l++) { if (st[l]) cloog_stride_free(st[l]); isl_constraint_free(sc[l]); } }
int main(int argc, char **argv)
{
  isl_ctx *ctx = isl_ctx_alloc(); CloogState *state = cloog_isl_state_malloc(ctx); CloogOptions *opt = cloog_options_malloc(state); char txt[20000];
  h_init(argc, argv); isl_options_set_on_error(ctx, 0);
  while (h_more()) {
    int i, k, nscat = h_rnd(0, 2); CloogNames *names; CloogInfos infos; long live; struct clast_stmt *root = NULL, **next = &root;
    r_big = h_coin(5); r_nd = h_rnd(1, 4); r_np = h_rnd(0, 3);
    names = names_exact(nscat); live = h_live;
    memset(&infos, 0, sizeof infos); infos.names = names; infos.state = state; infos.options = opt; infos.stride = st;
    infos.equal = cloog_equal_alloc(r_nd, r_nd, r_np);
    if (!h_coin(3)) {
      /* modulo guards */
      int lev = h_rnd(1, r_nd), eq = !h_coin(3), swap = h_coin(2), ret; long m = h_rnd(2, 12), c1 = h_rnd(-9, 9), c2 = 0; long e[MXV + 3]; isl_space *sp; isl_constraint *up, *lo = NULL;
      sp = isl_space_set_alloc(ctx, r_np, r_nd);
      infos.stride_level = h_coin(4) ? r_nd : lev - 1; if (h_coin(6)) infos.stride_level = h_rnd(0, lev - 1);
      h_d("modulo guard of variable %d:", lev); strides(isl_space_copy(sp), infos.stride_level);
      for (i = 0; i < r_nd + r_np; i++) e[i] = i == lev - 1 || (i < r_nd && i >= lev) || h_coin(3) ? 0 : h_coin(3) ? m * h_rnd(-2, 2) : r_num();
      if (h_coin(4)) for (i = 0; i < r_nd + r_np; i++) if (e[i]) e[i] = m * h_rnd(-1, 1);
      { long g = m; for (i = 0; i < r_nd + r_np; i++) { long x = e[i] < 0 ? -e[i] : e[i]; while (x) { long t = g % x; g = x; x = t; } }
        /* as isl normalises its constraints */ if (!eq && g > 1) eq = 1; if (c1 % g) c1 = g * h_rnd(-2, 2); }
      { isl_local_space *ls = isl_local_space_from_space(isl_space_copy(sp)); int sg = swap ? -1 : 1;
        up = eq ? isl_equality_alloc(isl_local_space_copy(ls)) : isl_inequality_alloc(isl_local_space_copy(ls)); if (!eq) sg = 1;
        for (i = 0; i < r_nd; i++) up = isl_constraint_set_coefficient_si(up, isl_dim_set, i, sg * (i == lev - 1 ? -m : e[i]));
        for (i = 0; i < r_np; i++) up = isl_constraint_set_coefficient_si(up, isl_dim_param, i, sg * e[r_nd + i]);
        up = isl_constraint_set_constant_si(up, sg * c1);
        if (!eq) { c2 = h_rnd(0, m - 1) - c1; lo = isl_inequality_alloc(isl_local_space_copy(ls));
          for (i = 0; i < r_nd; i++) lo = isl_constraint_set_coefficient_si(lo, isl_dim_set, i, i == lev - 1 ? m : -e[i]);
          for (i = 0; i < r_np; i++) lo = isl_constraint_set_coefficient_si(lo, isl_dim_param, i, -e[r_nd + i]);
          lo = isl_constraint_set_constant_si(lo, c2); }
        isl_local_space_free(ls); }
      r_show(up); if (lo) { h_d(" and"); r_show(lo); }
      ret = insert_modulo_guard(cloog_constraint_from_isl_constraint(up), cloog_constraint_from_isl_constraint(lo), lev, &next, &infos);
      if (next != last(&root)) h_fail("the next statement would not go inside the guard");
      for (k = 0; k < 12; k++) {
        long s = c1; int want, have; r_point(); on_strides(infos.stride_level);
        for (i = 0; i < r_nd; i++) s += e[i] * r_v[i]; for (i = 0; i < r_np; i++) s += e[r_nd + i] * r_p[i];
        /* m x <= s and m x >= s - c1 - c2 */
        want = eq ? s % m == 0 : m * r_fdiv(s, m) >= s - c1 - c2; have = ret && guards(root);
        if (want != have) h_fail("at (%ld,%ld,%ld,%ld; %ld,%ld,%ld) the guard is %s (%s), but an integer value %s", r_v[0], r_v[1], r_v[2], r_v[3], r_p[0], r_p[1], r_p[2], have ? "true" : "false", ret ? (root ? "tested" : "taken as satisfied") : "reported unsatisfiable", want ? "exists" : "does not exist");
      }
      isl_constraint_free(up); isl_constraint_free(lo); isl_space_free(sp); strides_free();
    } else {
      /* ordinary guards */
      int lev = h_coin(2) ? 0 : h_rnd(1, r_nd + 1), ok = 1; isl_basic_set *b = r_bset(ctx, h_rnd(0, 4), h_coin(4), h_coin(3), txt); CloogConstraintSet *cs; int md = h_coin(2); long e[MXV + 4] = {0}, m = h_rnd(2, 9), bd = h_coin(2) ? 0 : h_rnd(0, m - 2);
      memset(st, 0, sizeof st); memset(sc, 0, sizeof sc);
      if (b && isl_basic_set_dim(b, isl_dim_div)) md = 0;
      if (b && md) { /* a remainder condition on variables other than the level */
        char t[600]; isl_set *s2; sprintf(t, "%ld", e[r_nd + r_np] = h_rnd(-9, 9));
        for (i = 0; i < r_nd + r_np; i++) if (i != lev - 1 && h_coin(2)) { e[i] = r_num() % 20; sprintf(t + strlen(t), "%+ld%s", e[i], i < r_nd ? r_it[i] : r_pa[i - r_nd]); }
        { char *o = strrchr(txt, '}'); sprintf(o, "%s ((%s) mod %ld) <= %ld }", strchr(txt, ':') ? "and" : ":", t, m, bd); }
        isl_basic_set_free(b); b = NULL; s2 = isl_set_read_from_str(ctx, txt); if (isl_set_n_basic_set(s2) == 1) { isl_basic_set_list *l = isl_set_get_basic_set_list(s2); b = isl_basic_set_list_get_basic_set(l, 0); isl_basic_set_list_free(l); } isl_set_free(s2);
        if (b && isl_basic_set_dim(b, isl_dim_div) != 1) { isl_basic_set_free(b); b = NULL; }
        if (b) { infos.stride_level = h_rnd(0, r_nd); h_d("strides:"); strides(isl_space_set_alloc(ctx, r_np, r_nd), infos.stride_level); } }
      if (b) {
        h_d("guard for level %d of %s", lev, txt); r_nc = 0; isl_basic_set_foreach_constraint(b, r_col, NULL);
        for (i = 0; i < r_nc; i++) { if (!r_clean(r_cons[i], -1)) ok = 0; for (k = r_nd; k < r_nd + isl_constraint_dim(r_cons[i], isl_dim_div); k++) if (r_coef(r_cons[i], k) && !md) ok = 0; }
        if (md) { int eqd = 0, ind = 0, other = 0; for (i = 0; i < r_nc; i++) if (r_coef(r_cons[i], r_nd)) { other |= lev && lev <= r_nd && r_coef(r_cons[i], lev - 1); if (isl_constraint_is_equality(r_cons[i])) eqd++; else if (!isl_constraint_is_div_constraint(r_cons[i])) ind++; } if (eqd + ind != 1 || other) ok = 0; }
        if (md && ok && contradicted(b, infos.stride_level)) ok = 0; /* the strides come from the domain, so they do not contradict it */
        cs = cloog_constraint_set_from_isl_basic_set(b);
        if (ok) {
          insert_guard(cs, lev, &next, &infos);
          if (next != last(&root)) h_fail("the next statement would not go inside the guard");
          for (k = 0; k < 12; k++) { int want = 1, have; r_point(); if (md) on_strides(infos.stride_level);
            else
            if (r_nc && h_coin(2)) { /* move onto a constraint */ isl_constraint *c = r_cons[h_rnd(0, r_nc - 1)]; int v = h_rnd(0, r_nd - 1); long a = r_coef(c, v); if (a) { long R; r_v[v] = 0; R = r_value(c); r_v[v] = -r_fdiv(R, a) + h_rnd(-1, 1); } }
            for (i = 0; i < r_nc; i++) { long x; if (lev && r_nd >= lev && r_coef(r_cons[i], lev - 1)) continue; x = r_value(r_cons[i]); if (isl_constraint_is_equality(r_cons[i]) ? x != 0 : x < 0) want = 0; }
            have = guards(root);
            if (want != have) h_fail("at (%ld,%ld,%ld,%ld; %ld,%ld,%ld) the guard is %s, the constraints are %s", r_v[0], r_v[1], r_v[2], r_v[3], r_p[0], r_p[1], r_p[2], have ? "true" : "false", want ? "true" : "false"); }
        }
        for (i = 0; i < r_nc; i++) isl_constraint_free(r_cons[i]); isl_basic_set_free(b); strides_free();
      }
    }
    cloog_clast_free(root); cloog_equal_free(infos.equal);
    if (h_live != live) h_fail("memory leaked (%ld blocks)", h_live - live);
    cloog_names_free(names);
  }
  return h_done();
}
