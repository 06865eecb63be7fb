/* Domain wrappers against isl itself: every kept operand must stay as it was, every reference must be released exactly
   once (isl_ctx_free aborts otherwise), every result must be the set the function promises. */
#include "common.h"
#include <cloog/cloog.h>
#include <cloog/isl/cloog.h>
#include <isl/options.h>
#include <isl/val.h>
#include <isl/aff.h>
#include <isl/map.h>
#include <isl/space.h>
#include <isl/point.h>
#include <isl/local_space.h>
#include <isl/constraint.h>
static isl_ctx *ctx; static CloogState *state; static int nd, np;
static const char *it[6] = {"a", "b", "c", "d", "e", "f"};
static char pars[40], tup[60];
static void sp(void) { int i; strcpy(tup, "["); for (i = 0; i < nd; i++) sprintf(tup + strlen(tup), "%s%s", i ? "," : "", it[i]); strcat(tup, "]"); strcpy(pars, np == 0 ? "" : np == 1 ? "[M] -> " : "[M,N] -> "); }
static void aff(char *o) { int i; sprintf(o, "%d", h_rnd(-5, 5)); for (i = 0; i < nd; i++) if (h_coin(2)) sprintf(o + strlen(o), "%+d%s", h_rnd(1, 3) * (h_coin(2) ? 1 : -1), it[i]); if (np > 0 && h_coin(3)) sprintf(o + strlen(o), "%+dM", h_rnd(1, 2) * (h_coin(2) ? 1 : -1)); if (np > 1 && h_coin(3)) sprintf(o + strlen(o), "%+dN", h_coin(2) ? 1 : -1); }
/* kind: 0 anything, 1 no existentials, 2 one convex piece without existentials */
static isl_set *rset(const char *nm, int kind, int bounded)
{
  char s[4000], t[400]; int i, j, m, pieces = kind == 2 ? 1 : h_coin(4) ? h_rnd(3, 5) : h_rnd(1, 3); isl_set *r;
  int fd = nd && h_coin(3) ? h_rnd(0, nd - 1) : -1, fv = h_rnd(-2, 2), fm = h_rnd(0, 3), fj = h_rnd(0, pieces - 1); /* a dimension fixed in all pieces, in one, in all but one */
  sprintf(s, "%s{ ", pars);
  for (j = 0; j < pieces; j++) {
    sprintf(s + strlen(s), "%s%s : ", j ? "; " : "", tup); strcat(s, "0 = 0");
    if (!bounded && h_coin(12)) { if (h_coin(4)) strcat(s, " and 0 = 1"); continue; } /* universe, empty */
    for (i = 0; i < nd; i++) if (bounded || !h_coin(4)) { int lo = h_rnd(-4, 3), w = h_rnd(0, 6); sprintf(s + strlen(s), " and %d <= %s <= %d", lo, it[i], lo + w); } else if (h_coin(2)) sprintf(s + strlen(s), " and %s %s %d", it[i], h_coin(2) ? "<=" : ">=", h_rnd(-3, 3));
    if (fd >= 0 && (fm == 0 || (fm == 1 && j == fj) || (fm == 2 && j != fj) || (fm == 3 && j == 0))) sprintf(s + strlen(s), " and %s = %d", it[fd], fv);
    m = h_rnd(0, 2);
    for (i = 0; i < m; i++) { aff(t); switch (h_rnd(0, kind ? 2 : 4)) { case 0: case 1: sprintf(s + strlen(s), " and %s >= 0", t); break; case 2: if (h_coin(3)) sprintf(s + strlen(s), " and %s = 0", t); break; default: sprintf(s + strlen(s), " and (%s) mod %d = %d", t, h_rnd(2, 4), h_rnd(0, 1)); } }
  }
  strcat(s, " }"); h_d(" %s=%s", nm, s); r = isl_set_read_from_str(ctx, s); return r;
}
static int eq(isl_set *a, isl_set *b) { return isl_set_is_equal(a, b) == isl_bool_true; }
static int sub(isl_set *a, isl_set *b) { return isl_set_is_subset(a, b) == isl_bool_true; }
static void need(int ok, const char *what) { if (!ok) h_fail("%s", what); }
static isl_set *S(CloogDomain *d) { return isl_set_from_cloog_domain(d); }
static CloogDomain *D(isl_set *s) { return cloog_domain_from_isl_set(isl_set_copy(s)); }
/* the caller's reference d must still stand for the set s */
static void kept(CloogDomain *d, isl_set *s, const char *what) { if (!eq(S(d), s)) h_fail("operand changed: %s", what); cloog_domain_free(d); }
static void expect(CloogDomain *r, isl_set *want, const char *what) { if (!eq(S(r), want)) { char *x = isl_set_to_str(S(r)), *y = isl_set_to_str(want); h_fail("%s: got %s, expected %s", what, x, y); } cloog_domain_free(r); isl_set_free(want); }
/* { x -> y : first n coordinates equal, then x_n OP y_n } */
static isl_map *cmpmap(isl_set *a, isl_set *b, int pos, int strict)
{
  isl_map *m = isl_map_from_domain_and_range(isl_set_copy(a), isl_set_copy(b)); int i;
  for (i = 0; i < pos; i++) m = isl_map_equate(m, isl_dim_in, i, isl_dim_out, i);
  return strict ? isl_map_order_gt(m, isl_dim_in, pos, isl_dim_out, pos) : isl_map_order_ge(m, isl_dim_in, pos, isl_dim_out, pos);
}
static int mempty(isl_map *m) { int r = isl_map_is_empty(m); isl_map_free(m); return r; }
/* { x : (x_level + off) mod s = 0 } */
static isl_set *congr(isl_set *like, int level, long off, long s)
{
  isl_local_space *ls = isl_local_space_from_space(isl_set_get_space(like)); isl_aff *a = isl_aff_var_on_domain(ls, isl_dim_set, level - 1);
  a = isl_aff_add_constant_si(a, off); a = isl_aff_mod_val(a, isl_val_int_from_si(ctx, s)); return isl_set_from_basic_set(isl_aff_zero_basic_set(a));
}
static long geti(cloog_int_t v) { return mpz_get_si(v); }
static isl_map *rmap(const char *nm, int ns, int scal)
{
  char s[2000], t[400]; int k; sprintf(s, "%s{ %s -> [", pars, tup);
  for (k = 0; k < ns; k++) { if (k) strcat(s, ","); if (h_coin(scal)) sprintf(s + strlen(s), "%d", h_rnd(-2, 3)); else { aff(t); strcat(s, t); } }
  strcat(s, "] }"); h_d(" %s=%s", nm, s); return isl_map_read_from_str(ctx, s);
}
static isl_map *M(CloogScattering *s) { return (isl_map *)s; }
static CloogScattering *SC(isl_map *m) { return cloog_scattering_from_isl_map(isl_map_copy(m)); }
static int meq(isl_map *a, isl_map *b) { return isl_map_is_equal(a, b) == isl_bool_true; }
