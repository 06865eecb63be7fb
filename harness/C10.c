#include "dom.h"
static isl_set *mset(const char *nm, int lv, int *q, int *r0)
{ /* a set in which level lv has a constant residue class */
  isl_set *A = rset(nm, 2, 0), *c; *q = h_rnd(1, 6); *r0 = h_rnd(0, *q - 1); h_d(" with (%s%+d) mod %d = 0", it[lv - 1], *r0, *q); c = congr(A, lv, *r0, *q); return isl_set_intersect(A, c);
}
static void op(int f)
{
  isl_set *A, *B; CloogDomain *a, *r; int q, r0, lv = h_rnd(1, nd), k, n; cloog_int_t s, o;
  switch (f) {
  case 0: case 1: { isl_set *c; long sv, ov; isl_val *v1 = NULL, *v2 = NULL; h_d("cloog_domain_stride level=%d", lv); A = mset("A", lv, &q, &r0); a = D(A); cloog_int_init(s); cloog_int_init(o); cloog_domain_stride(a, lv, &s, &o); sv = geti(s); ov = geti(o);
    if (!isl_set_is_empty(A)) { isl_set_dim_residue_class_val(A, lv - 1, &v1, &v2); if (isl_val_get_num_si(v1) != sv) h_fail("stride %ld, expected %ld", sv, isl_val_get_num_si(v1)); isl_val_free(v1); isl_val_free(v2);
      if (sv == 0) { c = isl_set_fix_si(isl_set_copy(A), isl_dim_set, lv - 1, -ov); need(eq(A, c), "constant level with a wrong offset"); isl_set_free(c); } else need(ov >= 0 && ov < sv, "offset out of range"); if (sv > 1) { c = congr(A, lv, ov, sv); if (!sub(A, c)) h_fail("points with (x%+ld) mod %ld != 0", ov, sv); isl_set_free(c); } }
    cloog_int_clear(s); cloog_int_clear(o); kept(a, A, "stride"); isl_set_free(A); break; }
  case 2: case 3: { /* constant stride lower bound */ isl_set *c, *x, *y; int st = h_rnd(1, 6), of = h_rnd(0, st - 1); CloogStride *cs; h_d("cloog_domain_stride_lower_bound level=%d stride=%d offset=%d", lv, st, of); A = rset("A", h_rnd(0, 2), 0); a = D(A); if (!cloog_domain_can_stride(a, lv)) { cloog_domain_free(a); isl_set_free(A); break; }
    cloog_int_init(s); cloog_int_init(o); cloog_int_set_si(s, st); cloog_int_set_si(o, of); cs = cloog_stride_alloc(s, o); r = cloog_domain_stride_lower_bound(a, lv, cs);
    c = congr(A, lv, -of, st); x = isl_set_intersect(isl_set_copy(A), isl_set_copy(c)); y = isl_set_intersect(isl_set_copy(S(r)), isl_set_copy(c)); need(eq(x, y), "strided points were lost or added"); need(sub(S(r), A), "points added"); isl_set_free(x); isl_set_free(y);
    /* the smallest value for given other coordinates must be on the stride (one piece only) */
    if (isl_set_n_basic_set(A) == 1 && isl_set_dim_is_bounded(A, isl_dim_set, lv - 1) && isl_set_n_basic_set(S(r)) == 1) { int j; isl_map *m = isl_map_from_domain_and_range(isl_set_copy(S(r)), isl_set_copy(S(r))); isl_set *mn; for (j = 0; j < nd; j++) if (j != lv - 1) m = isl_map_equate(m, isl_dim_in, j, isl_dim_out, j); m = isl_map_order_gt(m, isl_dim_in, lv - 1, isl_dim_out, lv - 1); mn = isl_set_subtract(isl_set_copy(S(r)), isl_map_domain(m)); 
      { isl_set *eqs = isl_set_subtract(isl_set_copy(mn), isl_set_copy(c)); isl_basic_set_list *l = isl_set_get_basic_set_list(A); isl_basic_set *b = isl_basic_set_list_get_basic_set(l, 0), *ah = isl_basic_set_affine_hull(isl_basic_set_copy(b)); int inv = isl_basic_set_involves_dims(ah, isl_dim_set, lv - 1, 1) || isl_basic_set_dim(b, isl_dim_div) > 0; isl_basic_set_free(ah); isl_basic_set_free(b); isl_basic_set_list_free(l); if (!inv) need(isl_set_is_empty(eqs), "lower bound is not on the stride"); isl_set_free(eqs); } isl_set_free(mn); }
    isl_set_free(c); cloog_domain_free(r); cloog_stride_free(cs); cloog_int_clear(s); cloog_int_clear(o); isl_set_free(A); break; }
  case 4: case 5: { /* common stride of a list */ CloogDomainList l[3]; isl_set *ss[3]; CloogStride *cs; char t[300]; n = h_rnd(1, 3); q = h_rnd(2, 6); h_d("cloog_domain_list_stride level=%d", lv); { int j; sprintf(t, "%d", h_rnd(-3, 3)); for (j = 0; j < lv - 1; j++) if (h_coin(2)) sprintf(t + strlen(t), "%+d%s", h_rnd(-3, 3), it[j]); if (np) sprintf(t + strlen(t), "%+dM", h_rnd(-2, 2)); }
    for (k = 0; k < n; k++) { char b[900]; sprintf(b, "%s{ %s : (%d%s+%s) mod %d = 0 }", pars, tup, h_coin(3) ? h_rnd(1, 4) : 1, it[lv - 1], t, q); A = rset("A", 2, 0); h_d(" and %s", b); ss[k] = isl_set_intersect(A, isl_set_read_from_str(ctx, b)); l[k].domain = D(ss[k]); l[k].next = k + 1 < n ? &l[k + 1] : NULL; }
    cs = cloog_domain_list_stride(l, lv);
    if (cs) { long sv = geti(cs->stride), fv = geti(cs->factor); isl_constraint *c = (isl_constraint *)cs->constraint; isl_aff *e; isl_set *good; need(sv > 1, "stride not above one"); e = isl_constraint_get_aff(c);
      { int j; isl_local_space *ls; isl_aff *x = NULL; ls = isl_local_space_from_space(isl_set_get_space(ss[0])); x = isl_aff_zero_on_domain(ls); x = isl_aff_set_constant_val(x, isl_aff_get_constant_val(e)); for (j = 0; j < np; j++) x = isl_aff_set_coefficient_val(x, isl_dim_param, j, isl_aff_get_coefficient_val(e, isl_dim_param, j)); for (j = 0; j < lv - 1; j++) x = isl_aff_set_coefficient_val(x, isl_dim_in, j, isl_aff_get_coefficient_val(e, isl_dim_in, j));
        x = isl_aff_scale_val(x, isl_val_int_from_si(ctx, fv)); x = isl_aff_neg(x); x = isl_aff_add_coefficient_si(x, isl_dim_in, lv - 1, 1); x = isl_aff_mod_val(x, isl_val_int_from_si(ctx, sv)); good = isl_set_from_basic_set(isl_aff_zero_basic_set(x)); }
      isl_aff_free(e); for (k = 0; k < n; k++) if (!sub(ss[k], good)) { char *z = isl_set_to_str(good); h_fail("a point of domain %d is not on the stride %ld (factor %ld): %s", k, sv, fv, z); } isl_set_free(good); cloog_stride_free(cs); }
    for (k = 0; k < n; k++) { kept(l[k].domain, ss[k], "list_stride"); isl_set_free(ss[k]); } break; }
  case 6: case 7: { CloogConstraint *lb = NULL; isl_set *u; h_d("cloog_domain_can_unroll level=%d", lv); A = rset("A", h_coin(3) ? 1 : 2, h_coin(2)); if (h_coin(3)) { isl_set_free(A); { char b[900], t[300]; int w = h_rnd(0, 6), j, kk = h_rnd(1, 3); sprintf(t, "%d", h_rnd(-3, 3)); for (j = 0; j < nd; j++) if (j != lv - 1 && h_coin(2)) sprintf(t + strlen(t), "%+d%s", h_rnd(-2, 2), it[j]); if (np) sprintf(t + strlen(t), "%+dM", h_rnd(-2, 2)); sprintf(b, "%s{ %s : %s <= %d%s <= %s+%d }", pars, tup, t, kk, it[lv - 1], t, w); h_d(" B=%s", b); A = isl_set_read_from_str(ctx, b); } }
    a = D(A); cloog_int_init(s); cloog_int_set_si(s, -1); k = cloog_domain_can_unroll(a, lv, &s, &lb);
    if (k) { long cnt = geti(s), j; u = isl_set_empty(isl_set_get_space(A)); cloog_int_init(o); if (cnt > 200) h_fail("count %ld", cnt); need(lb != NULL, "no lower bound reported"); for (j = 0; j < cnt; j++) { cloog_int_set_si(o, j); r = cloog_domain_fixed_offset(cloog_domain_copy(a), lv, lb, o); need(isl_set_is_disjoint(u, S(r)), "unrolled copies overlap"); u = isl_set_union(u, isl_set_copy(S(r))); cloog_domain_free(r); } if (!eq(u, A)) h_fail("the %ld unrolled copies do not cover the domain", cnt); isl_set_free(u); cloog_int_clear(o); cloog_constraint_release(lb); }
    else need(lb == NULL, "lower bound left behind"); cloog_int_clear(s); kept(a, A, "can_unroll"); isl_set_free(A); break; }
  case 8: nd = lv; sp(); { /* constraint stride: lower bounds with a symbolic offset */ CloogDomainList l; CloogStride *cs; char b[900], t[300]; int j; isl_set *C, *x, *y; q = h_rnd(2, 5); sprintf(t, "%d", h_rnd(-3, 3)); for (j = 0; j < lv - 1; j++) if (h_coin(2)) sprintf(t + strlen(t), "%+d%s", h_rnd(-3, 3), it[j]); if (np) sprintf(t + strlen(t), "%+dM", h_rnd(-2, 2)); sprintf(b, "%s{ %s : (%s+%s) mod %d = 0 }", pars, tup, it[lv - 1], t, q); h_d("stride from constraint level=%d C=%s", lv, b); C = isl_set_read_from_str(ctx, b); l.domain = D(C); l.next = NULL; cs = cloog_domain_list_stride(&l, lv); cloog_domain_free(l.domain);
    if (cs) { A = rset("A", 2, 0); a = D(A); if (cloog_domain_can_stride(a, lv)) { r = cloog_domain_stride_lower_bound(a, lv, cs); x = isl_set_intersect(isl_set_copy(A), isl_set_copy(C)); y = isl_set_intersect(isl_set_copy(S(r)), isl_set_copy(C)); need(eq(x, y), "strided points were lost or added"); isl_set_free(x); isl_set_free(y); x = isl_set_copy(S(r)); y = isl_set_copy(x); r = cloog_domain_add_stride_constraint(r, cs); x = isl_set_intersect(x, isl_set_copy(C)); need(eq(S(r), x), "stride constraint"); isl_set_free(x); isl_set_free(y); cloog_domain_free(r); } else cloog_domain_free(a); isl_set_free(A); cloog_stride_free(cs); } isl_set_free(C); break; }
  case 9: { /* ceiling of a fixed offset */ CloogConstraint *lb; isl_constraint *c; char b[900], t[300]; int kk = h_rnd(1, 4), j, of = h_rnd(0, 3); isl_basic_set *bs; isl_constraint_list *cl; isl_aff *e; isl_set *w; sprintf(t, "%d", h_rnd(-5, 5)); for (j = 0; j < nd; j++) if (j != lv - 1 && h_coin(2)) sprintf(t + strlen(t), "%+d%s", h_rnd(-3, 3), it[j]); if (np) sprintf(t + strlen(t), "%+dM", h_rnd(-2, 2)); sprintf(b, "%s{ %s : %d%s >= %s }", pars, tup, kk, it[lv - 1], t); h_d("cloog_domain_fixed_offset level=%d bound=%s offset=%d", lv, b, of); bs = isl_basic_set_read_from_str(ctx, b); cl = isl_basic_set_get_constraint_list(bs);
    if (isl_constraint_list_n_constraint(cl) == 1) { A = rset("A", 1, 0); c = isl_constraint_list_get_constraint(cl, 0); cloog_int_init(o); cloog_int_set_si(o, of); r = cloog_domain_fixed_offset(D(A), lv, (CloogConstraint *)c, o);
      { isl_set *bset = isl_set_from_basic_set(isl_basic_set_copy(bs)), *mn, *sh; isl_map *m = isl_map_from_domain_and_range(isl_set_copy(bset), isl_set_copy(bset)); char sb[400]; for (j = 0; j < nd; j++) if (j != lv - 1) m = isl_map_equate(m, isl_dim_in, j, isl_dim_out, j); m = isl_map_order_gt(m, isl_dim_in, lv - 1, isl_dim_out, lv - 1); mn = isl_set_subtract(bset, isl_map_domain(m)); sprintf(sb, "{ %s -> [", tup); for (j = 0; j < nd; j++) sprintf(sb + strlen(sb), "%s%s%+d", j ? "," : "", it[j], j == lv - 1 ? of : 0); strcat(sb, "] }"); sh = isl_set_apply(mn, isl_map_read_from_str(ctx, sb)); w = isl_set_intersect(sh, isl_set_copy(A)); expect(r, w, "fixed offset"); }
      isl_constraint_free(c); cloog_int_clear(o); isl_set_free(A); } isl_constraint_list_free(cl); isl_basic_set_free(bs); break; }
  }
}
int main(int argc, char **argv)
{
  h_init(argc, argv);
  while (h_more()) {
    long live = h_live; ctx = isl_ctx_alloc(); isl_options_set_on_error(ctx, ISL_ON_ERROR_ABORT); state = cloog_isl_state_malloc(ctx); nd = h_rnd(1, 3); np = h_rnd(0, 1); sp();
    h_alarm_ok = 1; alarm(20); op(h_rnd(0, 9)); cloog_state_free(state); h_d(" (references at the end)"); isl_ctx_free(ctx); if (h_live != live) h_fail("memory leaked (%ld blocks)", h_live - live);
  }
  return h_done();
}
