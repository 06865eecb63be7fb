/* random isl basic sets / constraints and their values at a point (independent of CLooG's own accessors) */
#include <isl/ctx.h>
#include <isl/val.h>
#include <isl/set.h>
#include <isl/aff.h>
#include <isl/constraint.h>
#include <isl/space.h>
#include <isl/local_space.h>
#define MXV 6
static const char *r_it[MXV] = {"i", "j", "k", "l", "m", "n"}, *r_pa[3] = {"M", "N", "P"}, *r_sc[MXV] = {"c1", "c2", "c3", "c4", "c5", "c6"};
static int r_nd, r_np; static long r_v[MXV], r_p[3];
static long r_lookup(const char *s) { int k; for (k = 0; k < MXV; k++) { if (!strcmp(s, r_it[k])) return r_v[k]; if (!strcmp(s, r_sc[k])) return r_v[k]; } for (k = 0; k < 3; k++) if (!strcmp(s, r_pa[k])) return r_p[k]; h_fail("expression uses unknown name %s", s); return 0; }
static long r_fdiv(long a, long b) { long q = a / b; return (q * b != a && (a < 0) != (b < 0)) ? q - 1 : q; }
static long r_val(isl_val *v) { long x = isl_val_get_num_si(v); isl_val_free(v); return x; }
static long r_div(isl_constraint *c, int j);
static int r_divuses(isl_constraint *c, int j, int var);
/* value of flattened variable v (set, div, param) of the constraint */
static long r_var(isl_constraint *c, int v)
{
  int ns = isl_constraint_dim(c, isl_dim_set), nd = isl_constraint_dim(c, isl_dim_div);
  if (v < ns) return r_v[v]; if (v < ns + nd) return r_div(c, v - ns); return r_p[v - ns - nd];
}
static long r_coef(isl_constraint *c, int v)
{
  int ns = isl_constraint_dim(c, isl_dim_set), nd = isl_constraint_dim(c, isl_dim_div);
  if (v < ns) return r_val(isl_constraint_get_coefficient_val(c, isl_dim_set, v)); if (v < ns + nd) return r_val(isl_constraint_get_coefficient_val(c, isl_dim_div, v - ns));
  return r_val(isl_constraint_get_coefficient_val(c, isl_dim_param, v - ns - nd));
}
static int r_total(isl_constraint *c) { return isl_constraint_dim(c, isl_dim_set) + isl_constraint_dim(c, isl_dim_div) + isl_constraint_dim(c, isl_dim_param); }
static long r_sub(long den, isl_val *v) { isl_val *n = isl_val_mul_ui(v, den); return r_val(n); }
static long r_div(isl_constraint *c, int j)
{
  isl_aff *a = isl_constraint_get_div(c, j); long den = r_val(isl_aff_get_denominator_val(a)), x = r_sub(den, isl_aff_get_constant_val(a)); int i, ns = isl_constraint_dim(c, isl_dim_set), np = isl_constraint_dim(c, isl_dim_param);
  for (i = 0; i < ns; i++) x += r_sub(den, isl_aff_get_coefficient_val(a, isl_dim_in, i)) * r_v[i];
  for (i = 0; i < np; i++) x += r_sub(den, isl_aff_get_coefficient_val(a, isl_dim_param, i)) * r_p[i];
  for (i = 0; i < j; i++) { long k = r_sub(den, isl_aff_get_coefficient_val(a, isl_dim_div, i)); if (k) x += k * r_div(c, i); }
  isl_aff_free(a); return r_fdiv(x, den);
}
static int r_divuses(isl_constraint *c, int j, int var)
{
  isl_aff *a = isl_constraint_get_div(c, j); isl_val *v = isl_aff_get_coefficient_val(a, isl_dim_in, var); int i, r = !isl_val_is_zero(v); isl_val_free(v);
  for (i = 0; i < j && !r; i++) { v = isl_aff_get_coefficient_val(a, isl_dim_div, i); if (!isl_val_is_zero(v)) r = r_divuses(c, i, var); isl_val_free(v); }
  isl_aff_free(a); return r;
}
static long r_value(isl_constraint *c) { int i, n = r_total(c); long x = r_val(isl_constraint_get_constant_val(c)); for (i = 0; i < n; i++) { long k = r_coef(c, i); if (k) x += k * r_var(c, i); } return x; }
/* no existential in use depends on set dimension var; every existential in use has a definition */
static int r_clean(isl_constraint *c, int var)
{
  int j, nd = isl_constraint_dim(c, isl_dim_div), ns = isl_constraint_dim(c, isl_dim_set);
  for (j = 0; j < nd; j++) if (r_coef(c, ns + j)) { isl_aff *a = isl_constraint_get_div(c, j); if (!a) return 0; isl_aff_free(a); if (var >= 0 && r_divuses(c, j, var)) return 0; }
  return 1;
}
static void r_show(isl_constraint *c) { isl_basic_set *b = isl_basic_set_from_constraint(isl_constraint_copy(c)); char *s = isl_basic_set_to_str(b); h_d(" %s", s); free(s); isl_basic_set_free(b); }
static int r_big;
static int r_num(void) { return h_coin(6) ? 0 : h_coin(3) ? (h_coin(2) ? 1 : -1) : h_coin(r_big ? 3 : 8) ? h_rnd(-1000, 1000) : h_rnd(-7, 7); }
static void r_aff(char *o, int k, int divs)
{
  int i; sprintf(o, "%d", r_num());
  for (i = 0; i < r_nd; i++) if (!h_coin(3)) sprintf(o + strlen(o), "%+d%s", r_num(), r_it[i]);
  for (i = 0; i < r_np; i++) if (!h_coin(3)) sprintf(o + strlen(o), "%+d%s", r_num(), r_pa[i]);
  if (divs && h_coin(2)) { char t[400]; int nd = r_nd; r_nd = h_rnd(0, r_nd - 1 > 0 ? r_nd - 1 : 0); r_aff(t, k, h_coin(3)); r_nd = nd; sprintf(o + strlen(o), "%+d*floor((%s)/%d)", h_rnd(1, 4) * (h_coin(2) ? 1 : -1), t, h_rnd(2, 6)); }
}
static isl_basic_set *r_bset(isl_ctx *ctx, int nc, int divs, int eqs, char *txt)
{
  int i; char *o = txt; isl_set *s; isl_basic_set *b;
  o[0] = 0;
  if (r_np) { strcat(o, "["); for (i = 0; i < r_np; i++) sprintf(o + strlen(o), "%s%s", i ? "," : "", r_pa[i]); strcat(o, "] -> "); }
  strcat(o, "{ ["); for (i = 0; i < r_nd; i++) sprintf(o + strlen(o), "%s%s", i ? "," : "", r_it[i]); strcat(o, "]");
  for (i = 0; i < nc; i++) { char t[2000]; r_aff(t, 7, divs); sprintf(o + strlen(o), "%s %s %s 0", i ? " and" : " :", t, eqs && h_coin(3) ? "=" : ">="); }
  strcat(o, " }");
  s = isl_set_read_from_str(ctx, o); if (isl_set_n_basic_set(s) != 1) { isl_set_free(s); return NULL; }
  { isl_basic_set_list *l = isl_set_get_basic_set_list(s); b = isl_basic_set_list_get_basic_set(l, 0); isl_basic_set_list_free(l); }
  isl_set_free(s); return b;
}
static isl_constraint *r_cons[64]; static int r_nc;
static isl_stat r_col(isl_constraint *c, void *u) { if (r_nc < 64) r_cons[r_nc++] = c; else isl_constraint_free(c); return isl_stat_ok; }
static void r_point(void) { int i, w = h_coin(3) ? 100 : 9; for (i = 0; i < MXV; i++) r_v[i] = h_rnd(-w, w); for (i = 0; i < 3; i++) r_p[i] = h_rnd(-w, w); }
/* long evaluation of clast expressions with r_lookup */
static long r_ev(struct clast_expr *e)
{
  switch (e->type) {
  case clast_expr_name: return r_lookup(((struct clast_name *)e)->name);
  case clast_expr_term: { struct clast_term *t = (void *)e; long c = mpz_get_si(t->val); return t->var ? c * r_ev(t->var) : c; }
  case clast_expr_bin: { struct clast_binary *b = (void *)e; long x = r_ev(b->LHS), d = mpz_get_si(b->RHS); if (d <= 0) h_fail("divisor %ld", d);
    switch (b->type) { case clast_bin_fdiv: return r_fdiv(x, d); case clast_bin_cdiv: return -r_fdiv(-x, d); case clast_bin_div: return x / d; default: return x - d * r_fdiv(x, d); } }
  default: { struct clast_reduction *r = (void *)e; int k; long x = 0; for (k = 0; k < r->n; k++) { long y = r_ev(r->elts[k]); if (r->type == clast_red_sum) x += y; else if (k == 0 || (r->type == clast_red_min ? y < x : y > x)) x = y; } return x; }
  }
}
static CloogNames *r_names(int nscat)
{
  CloogNames *n = cloog_names_malloc(); int i;
  n->nb_scattering = nscat; n->nb_iterators = MXV - nscat; n->nb_parameters = 3; n->references = 1;
  n->scattering = nscat ? malloc(sizeof(char *) * MXV) : NULL; n->iterators = malloc(sizeof(char *) * MXV); n->parameters = malloc(sizeof(char *) * 3);
  for (i = 0; i < nscat; i++) n->scattering[i] = strdup(r_sc[i]);
  for (i = 0; i + nscat < MXV; i++) n->iterators[i] = strdup(r_it[i + nscat]);
  for (i = 0; i < 3; i++) n->parameters[i] = strdup(r_pa[i]);
  return n;
}
