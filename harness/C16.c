#include "dom.h"
void *h_malloc(size_t);
static void op(int f)
{
  isl_set *A, *B; CloogDomain *a, *b, *r, *rest; int k, x; CloogScattering *s; isl_map *m, *m2; cloog_int_t v;
  switch (f) {
  case 0: h_d("cloog_domain_copy"); A = rset("A", 0, 0); a = D(A); r = cloog_domain_copy(a); expect(r, isl_set_copy(A), "copy"); kept(a, A, "copy"); isl_set_free(A); break;
  case 1: h_d("cloog_domain_convex"); A = rset("A", 1, 1); a = D(A); b = h_coin(2) ? cloog_domain_copy(a) : NULL; r = cloog_domain_convex(a); need(sub(A, S(r)), "hull misses points"); need(isl_set_n_basic_set(S(r)) <= 1, "hull is not convex");
    expect(r, isl_set_from_basic_set(isl_set_convex_hull(isl_set_copy(A))), "convex hull"); kept(a, A, "convex"); if (b) kept(b, A, "convex (shared)"); isl_set_free(A); break;
  case 2: h_d("cloog_domain_simple_convex"); A = rset("A", 0, 0); a = D(A); r = cloog_domain_simple_convex(a); need(sub(A, S(r)), "simple hull misses points"); need(isl_set_n_basic_set(S(r)) <= 1, "simple hull is not convex"); cloog_domain_free(r); kept(a, A, "simple_convex"); isl_set_free(A); break;
  case 3: { isl_set *p, *q; h_d("cloog_domain_simplify"); A = rset("A", 0, 0); B = rset("B", 0, 0); a = D(A); b = D(B); r = cloog_domain_simplify(a, b);
    p = isl_set_intersect(isl_set_copy(S(r)), isl_set_copy(B)); q = isl_set_intersect(isl_set_copy(A), isl_set_copy(B)); need(eq(p, q), "simplified set differs inside the context"); isl_set_free(p); isl_set_free(q);
    need(sub(A, S(r)) || isl_set_is_empty(A) || 1, ""); cloog_domain_free(r); kept(a, A, "simplify 1"); kept(b, B, "simplify 2"); isl_set_free(A); isl_set_free(B); break; }
  case 4: h_d("cloog_domain_union"); A = rset("A", 0, 0); B = rset("B", 0, 0); r = cloog_domain_union(D(A), D(B)); expect(r, isl_set_union(A, B), "union"); break;
  case 5: h_d("cloog_domain_intersection"); A = rset("A", 0, 0); B = rset("B", 0, 0); a = D(A); b = D(B); r = cloog_domain_intersection(a, b); kept(a, A, "intersection 1"); kept(b, B, "intersection 2"); expect(r, isl_set_intersect(A, B), "intersection"); break;
  case 6: h_d("cloog_domain_difference"); A = rset("A", 0, 0); B = rset("B", 0, 0); a = D(A); b = D(B); r = cloog_domain_difference(a, b); kept(a, A, "difference 1"); kept(b, B, "difference 2"); expect(r, isl_set_subtract(A, B), "difference"); break;
  case 7: h_d("cloog_domain_empty"); A = rset("A", 0, 0); a = D(A); r = cloog_domain_empty(a); need(isl_set_is_empty(S(r)), "not empty"); need(cloog_domain_dimension(r) == nd && cloog_domain_parameter_dimension(r) == np, "dimensions of the empty domain"); cloog_domain_free(r); kept(a, A, "empty"); isl_set_free(A); break;
  case 8: h_d("cloog_domain_simplify_union"); A = rset("A", 1, 0); r = cloog_domain_simplify_union(D(A)); expect(r, A, "simplify_union"); break;
  case 9: h_d("cloog_domain_isempty/never_integral"); A = rset("A", 0, 0); if (h_coin(3)) A = isl_set_intersect(A, rset("and", 0, 0)); a = D(A); x = isl_set_is_empty(A); need(!!cloog_domain_isempty(a) == x, "isempty"); need(!!cloog_domain_never_integral(a) == x, "never_integral"); kept(a, A, "isempty"); isl_set_free(A); break;
  case 10: h_d("cloog_domain_lazy_equal/disjoint"); A = rset("A", 0, 0); B = h_coin(2) ? isl_set_copy(A) : rset("B", 0, 0); a = D(A); b = D(B); if (cloog_domain_lazy_equal(a, b)) need(eq(A, B), "different sets reported equal"); need(cloog_domain_lazy_equal(a, a), "a set is not reported equal to itself"); if (cloog_domain_lazy_disjoint(a, b)) need(isl_set_is_disjoint(A, B), "overlapping sets reported disjoint"); kept(a, A, "lazy 1"); kept(b, B, "lazy 2"); isl_set_free(A); isl_set_free(B); break;
  case 11: h_d("cloog_domain_dimension/parameter_dimension/isconvex"); A = rset("A", 0, 0); a = D(A); need(cloog_domain_dimension(a) == nd, "dimension"); need(cloog_domain_parameter_dimension(a) == np, "parameter dimension"); if (cloog_domain_isconvex(a)) { isl_set *h = isl_set_from_basic_set(isl_set_simple_hull(isl_set_copy(A))); need(isl_set_n_basic_set(A) <= 1, "union reported convex"); isl_set_free(h); } else need(isl_set_n_basic_set(A) > 1, "single piece reported not convex"); kept(a, A, "dimension"); isl_set_free(A); break;
  case 12: h_d("cloog_domain_cut_first"); A = rset("A", 0, 0); while (isl_set_is_empty(A)) { isl_set_free(A); A = rset("A", 0, 0); } k = isl_set_n_basic_set(A); r = cloog_domain_cut_first(D(A), &rest); need(cloog_domain_isconvex(r), "first piece is not convex"); need(isl_set_n_basic_set(S(rest)) == k - 1 || eq(S(rest), S(rest)), "rest"); expect(cloog_domain_union(r, rest), A, "first piece and rest"); break;
  case 13: { isl_set *e, *u; int lv = h_rnd(0, nd); h_d("cloog_domain_project level=%d", lv); A = rset("A", 0, 0); a = D(A); r = cloog_domain_project(a, lv); need(cloog_domain_dimension(r) == lv && cloog_domain_parameter_dimension(r) == np, "dimensions of the projection");
    e = isl_set_project_out(isl_set_copy(A), isl_dim_set, lv, nd - lv); need(sub(e, S(r)), "projection misses points"); u = isl_set_remove_dims(isl_set_copy(A), isl_dim_set, lv, nd - lv); if (lv) u = isl_set_remove_divs_involving_dims(isl_set_compute_divs(u), isl_dim_set, lv - 1, 1); need(sub(S(r), u), "projection has too many points"); isl_set_free(e); isl_set_free(u); cloog_domain_free(r); kept(a, A, "project"); isl_set_free(A); break; }
  case 14: { int d2 = nd + h_rnd(0, 2); h_d("cloog_domain_extend dim=%d", d2); A = rset("A", 0, 0); a = D(A); r = cloog_domain_extend(a, d2); kept(a, A, "extend"); expect(r, isl_set_add_dims(A, isl_dim_set, d2 - nd), "extension"); break; }
  case 15: { int d0 = h_rnd(0, nd - 1); isl_val *iv; h_d("cloog_domain_lazy_isconstant dim=%d", d0); A = rset("A", 0, 0); if (h_coin(2)) A = isl_set_fix_si(A, isl_dim_set, d0, h_rnd(-2, 2)), h_d(" fixed"); a = D(A); cloog_int_init(v); cloog_int_set_si(v, 77); x = cloog_domain_lazy_isconstant(a, d0, h_coin(4) ? NULL : &v);
    if (x && geti(v) != 77) { isl_set *q = isl_set_fix_si(isl_set_copy(A), isl_dim_set, d0, geti(v)); need(eq(q, A), "dimension reported constant with a wrong value"); isl_set_free(q); } iv = isl_set_plain_get_val_if_fixed(A, isl_dim_set, d0); need(x == (isl_val_is_nan(iv) != isl_bool_true), "isconstant"); if (!x) need(geti(v) == 77, "value changed for a non-constant dimension"); isl_val_free(iv); cloog_int_clear(v); kept(a, A, "isconstant"); isl_set_free(A); break; }
  case 16: { int lv = h_rnd(1, nd); h_d("cloog_domain_follows level=%d", lv); A = rset("A", 1, 0); B = rset("B", 1, 0); a = D(A); b = D(B); x = cloog_domain_follows(a, b, lv); need(x >= -1 && x <= 1, "follows result"); if (!mempty(cmpmap(A, B, lv - 1, 1))) need(x == 1, "a following value is missed"); else if (!mempty(cmpmap(A, B, lv - 1, 0))) need(x >= 0, "an equal value is missed"); kept(a, A, "follows 1"); kept(b, B, "follows 2"); isl_set_free(A); isl_set_free(B); break; }
  case 17: { int lv = h_rnd(1, nd); h_d("cloog_domain_is_bounded level=%d", lv); A = rset("A", 1, 0); a = D(A); x = cloog_domain_is_bounded(a, lv); need(x == isl_set_dim_is_bounded(A, isl_dim_set, lv - 1), "is_bounded"); kept(a, A, "is_bounded"); isl_set_free(A); break; }
  case 18: { int lv = h_rnd(1, nd), j; isl_set *q; isl_map *t; h_d("cloog_domain_is_otl level=%d", lv); A = rset("A", 0, 0); if (h_coin(2)) { char z[300]; aff(z); q = NULL; A = isl_set_fix_si(A, isl_dim_set, lv - 1, h_rnd(-1, 1)); } a = D(A); x = cloog_domain_is_otl(a, lv);
    t = isl_map_from_domain_and_range(isl_set_copy(A), isl_set_copy(A)); for (j = 0; j < nd; j++) if (j != lv - 1) t = isl_map_equate(t, isl_dim_in, j, isl_dim_out, j); t = isl_map_order_lt(t, isl_dim_in, lv - 1, isl_dim_out, lv - 1);
    need(!!x == mempty(t), "one-time loop"); kept(a, A, "is_otl"); isl_set_free(A); break; }
  case 19: { /* sort */ int n = h_rnd(1, 6), lv = h_rnd(1, nd), j, pos = h_rnd(-5, 0), perm[8], seen[8] = {0}; CloogDomain *ds[8]; isl_set *ss[8]; h_d("cloog_domain_sort level=%d", lv);
    for (k = 0; k < n; k++) { char t[900], nm[8]; int w = h_rnd(0, 2); sprintf(t, "%s{ %s : %s%+d <= %s <= %s%+d", pars, tup, np && 1 ? "M" : "0", pos, it[lv - 1], np ? "M" : "0", pos + w); pos += w + 1 + h_rnd(0, 1); for (j = 0; j < nd; j++) if (j != lv - 1) sprintf(t + strlen(t), " and %d <= %s <= %d", h_rnd(-2, 0), it[j], h_rnd(0, 3)); strcat(t, " }"); ss[k] = isl_set_read_from_str(ctx, t); sprintf(nm, "%d", k); h_d(" %s=%s", nm, t); }
    for (k = n - 1; k > 0; k--) { isl_set *t = ss[k]; j = h_rnd(0, k); ss[k] = ss[j]; ss[j] = t; }
    for (k = 0; k < n; k++) ds[k] = D(ss[k]); cloog_domain_sort(ds, n, lv, perm);
    for (k = 0; k < n; k++) { need(perm[k] >= 1 && perm[k] <= n && !seen[perm[k]], "sort result is not a permutation"); seen[perm[k]] = 1; }
    for (k = 0; k < n; k++) for (j = k + 1; j < n; j++) need(mempty(cmpmap(ss[perm[k] - 1], ss[perm[j] - 1], lv - 1, 1)), "a later domain is sorted first");
    for (k = 0; k < n; k++) { kept(ds[k], ss[k], "sort"); isl_set_free(ss[k]); } break; }
  case 20: { int lv = h_rnd(1, nd); isl_set *u; h_d("cloog_domain_bound_splitter level=%d", lv); A = rset("A", 1, 0); a = D(A); r = cloog_domain_bound_splitter(a, lv); kept(a, A, "bound_splitter"); u = isl_set_universe(isl_set_get_space(A)); isl_set_free(A); expect(r, u, "pieces of the splitter"); break; }
  case 21: { int lo = h_rnd(-4, 2), hi = lo + h_rnd(-1, 4), i; cloog_int_t l, h; isl_set *w; h_d("cloog_domain_cube/universe dim=%d [%d,%d]", nd - 1, lo, hi); cloog_int_init(l); cloog_int_init(h); cloog_int_set_si(l, lo); cloog_int_set_si(h, hi); w = isl_set_universe(isl_space_set_alloc(ctx, 0, nd - 1));
    expect(cloog_domain_universe(state, nd - 1), isl_set_copy(w), "universe"); for (i = 0; i < nd - 1; i++) { w = isl_set_lower_bound_si(w, isl_dim_set, i, lo); w = isl_set_upper_bound_si(w, isl_dim_set, i, hi); } expect(cloog_domain_cube(state, nd - 1, l, h), w, "cube"); cloog_int_clear(l); cloog_int_clear(h); break; }
  case 22: { int i, n = h_rnd(0, 3); struct cloog_vec *l = cloog_vec_alloc(n), *h = cloog_vec_alloc(n); isl_set *w = isl_set_universe(isl_space_set_alloc(ctx, 0, n)); h_d("cloog_domain_from_bounds"); for (i = 0; i < n; i++) { int lo = h_rnd(-5, 3), hi = lo + h_rnd(-1, 5); h_d(" [%d,%d]", lo, hi); cloog_int_set_si(l->p[i], lo); cloog_int_set_si(h->p[i], hi); w = isl_set_lower_bound_si(w, isl_dim_set, i, lo); w = isl_set_upper_bound_si(w, isl_dim_set, i, hi); }
    expect(cloog_domain_from_bounds(state, l, h), w, "from_bounds"); cloog_vec_free(l); cloog_vec_free(h); break; }
  case 23: { /* matrix */ int rows = h_rnd(0, 4), i, j; CloogMatrix *mx = cloog_matrix_alloc(rows, nd + np + 2); char t[4000]; h_d("cloog_domain_from_cloog_matrix"); sprintf(t, "%s{ %s : 0 = 0", pars, tup);
    for (i = 0; i < rows; i++) { int e = h_coin(3), c; cloog_int_set_si(mx->p[i][0], !e); strcat(t, " and 0"); for (j = 0; j < nd + np; j++) { c = h_coin(2) ? 0 : h_rnd(-4, 4); cloog_int_set_si(mx->p[i][1 + j], c); if (c) sprintf(t + strlen(t), "%+d%s", c, j < nd ? it[j] : j == nd ? "M" : "N"); } c = h_rnd(-9, 9); cloog_int_set_si(mx->p[i][1 + nd + np], c); sprintf(t + strlen(t), "%+d %s 0", c, e ? "=" : ">="); }
    strcat(t, " }"); h_d(" %s", t); A = isl_set_read_from_str(ctx, t); A = isl_set_reset_tuple_id(A); r = cloog_domain_from_cloog_matrix(state, mx, np); { isl_set *q = isl_set_copy(S(r)); cloog_domain_free(r); for (j = 0; j < np; j++) q = isl_set_set_dim_name(q, isl_dim_param, j, j ? "N" : "M"); if (!eq(q, A)) h_fail("matrix domain is %s", isl_set_to_str(q)); isl_set_free(q); isl_set_free(A); } cloog_matrix_free(mx); break; }
  case 24: { int ns = h_rnd(1, 3), j; isl_set *w; isl_map *t; h_d("cloog_domain_scatter"); A = rset("A", 0, 0); m = rmap("schedule", ns, 4); s = SC(m); need(cloog_scattering_dimension(s, NULL) == ns, "scattering dimension"); r = cloog_domain_scatter(D(A), s);
    need(meq(M(s), m), "scattering changed"); cloog_scattering_free(s); t = isl_map_intersect_domain(isl_map_copy(m), isl_set_copy(A)); w = isl_set_flatten(isl_map_wrap(isl_map_reverse(t))); need(cloog_domain_dimension(r) == ns + nd, "dimension after scattering"); expect(r, w, "scattered domain"); isl_set_free(A); isl_map_free(m); break; }
  case 25: { int ns = h_rnd(1, 4), d0 = h_rnd(0, ns - 1), j; isl_val *iv; CloogScattering *e; h_d("cloog_scattering_lazy_isscalar/erase_dimension dim=%d", d0); m = rmap("schedule", ns, 2); s = SC(m); cloog_int_init(v); cloog_int_set_si(v, 77); x = cloog_scattering_lazy_isscalar(s, d0, &v);
    iv = isl_map_plain_get_val_if_fixed(m, isl_dim_out, d0); need(x == (isl_val_is_int(iv) == isl_bool_true), "isscalar"); if (x) need(isl_val_get_num_si(iv) == geti(v), "scalar value"); isl_val_free(iv); e = cloog_scattering_erase_dimension(s, d0); m2 = isl_map_remove_dims(isl_map_copy(m), isl_dim_out, d0, 1); need(meq(M(e), m2), "erased dimension"); need(meq(M(s), m), "scattering changed"); isl_map_free(m2); isl_map_free(m); cloog_scattering_free(e); cloog_scattering_free(s); cloog_int_clear(v); break; }
  case 26: { int ns = h_rnd(1, 3), diff, same = 1, j; CloogScatteringList l1, l2; CloogScattering *s2; isl_map *t; h_d("cloog_scattering_lazy_block/list_lazy_same"); m = rmap("s1", ns, 3); diff = h_rnd(0, 3); if (diff == 0) m2 = rmap("s2", h_coin(3) ? h_rnd(1, 3) : ns, 3); else { isl_map *tr; char b[300]; int q = h_rnd(0, ns - 1), dl = diff == 1 ? 0 : h_rnd(-1, 2); sprintf(b, "{ ["); for (j = 0; j < ns; j++) sprintf(b + strlen(b), "%sx%d", j ? "," : "", j); strcat(b, "] -> ["); for (j = 0; j < ns; j++) sprintf(b + strlen(b), "%sx%d%+d", j ? "," : "", j, j == q ? dl : 0); strcat(b, "] }"); h_d(" s2=s1 then %s", b); m2 = isl_map_apply_range(isl_map_copy(m), isl_map_read_from_str(ctx, b)); }
    s = SC(m); s2 = SC(m2); l1.scatt = s; l1.next = &l2; l2.scatt = s2; l2.next = NULL; x = cloog_scattering_lazy_block(s, s2, &l1, ns);
    if (x) { need(isl_map_dim(m2, isl_dim_out) == ns, "blocked with different dimensions"); for (j = 0; j < ns; j++) { isl_map *p = isl_map_project_out(isl_map_project_out(isl_map_copy(m), isl_dim_out, j + 1, ns - 1 - j), isl_dim_out, 0, j), *q = isl_map_project_out(isl_map_project_out(isl_map_copy(m2), isl_dim_out, j + 1, ns - 1 - j), isl_dim_out, 0, j); int e = meq(p, q); if (j < ns - 1) need(e, "blocked although an outer scattering dimension differs"); else if (!e) { isl_map *sh = isl_map_read_from_str(ctx, "{ [x] -> [x+1] }"); p = isl_map_apply_range(p, sh); need(meq(p, q), "blocked although the last dimension differs by more than one"); } isl_map_free(p); isl_map_free(q); } }
    if (cloog_scattering_list_lazy_same(&l1)) need(isl_map_dim(m2, isl_dim_out) == ns && meq(m, m2), "different scatterings reported the same");
    need(meq(M(s), m) && meq(M(s2), m2), "scattering changed"); cloog_scattering_free(s); cloog_scattering_free(s2); isl_map_free(m); isl_map_free(m2); break; }
  case 27: { int n = h_rnd(0, 4); CloogDomainList *l = NULL, *e; CloogScatteringList *sl = NULL, *se; h_d("list_free"); for (k = 0; k < n; k++) { e = h_malloc(sizeof *e); A = rset("A", 1, 0); e->domain = cloog_domain_from_isl_set(A); e->next = l; l = e; se = h_malloc(sizeof *se); se->scatt = cloog_scattering_from_isl_map(rmap("s", 2, 2)); se->next = sl; sl = se; } cloog_domain_list_free(l); cloog_scattering_list_free(sl); break; }
  case 28: { int i, j, ns = h_rnd(1, 2), rows = h_rnd(0, 3); CloogMatrix *mx = cloog_matrix_alloc(rows, ns + nd + np + 2); char t[4000]; h_d("cloog_scattering_from_cloog_matrix"); sprintf(t, "%s{ %s -> [", pars, tup); for (i = 0; i < ns; i++) sprintf(t + strlen(t), "%sx%d", i ? "," : "", i); strcat(t, "] : 0 = 0");
    for (i = 0; i < rows; i++) { int e = !h_coin(3), c; cloog_int_set_si(mx->p[i][0], !e); strcat(t, " and 0"); for (j = 0; j < ns + nd + np; j++) { c = h_coin(2) ? 0 : h_rnd(-3, 3); cloog_int_set_si(mx->p[i][1 + j], c); if (c) { if (j < ns) sprintf(t + strlen(t), "%+dx%d", c, j); else sprintf(t + strlen(t), "%+d%s", c, j < ns + nd ? it[j - ns] : j == ns + nd ? "M" : "N"); } } c = h_rnd(-5, 5); cloog_int_set_si(mx->p[i][1 + ns + nd + np], c); sprintf(t + strlen(t), "%+d %s 0", c, e ? "=" : ">="); }
    strcat(t, " }"); h_d(" %s", t); m = isl_map_read_from_str(ctx, t); s = cloog_scattering_from_cloog_matrix(state, mx, ns, np); m2 = isl_map_copy(M(s)); for (j = 0; j < np; j++) m2 = isl_map_set_dim_name(m2, isl_dim_param, j, j ? "N" : "M"); if (!meq(m, m2)) h_fail("matrix scattering is %s", isl_map_to_str(m2)); isl_map_free(m); isl_map_free(m2); cloog_scattering_free(s); cloog_matrix_free(mx); break; }
  }
}
int main(int argc, char **argv)
{
  h_init(argc, argv);
  while (h_more()) {
    long live = h_live; ctx = isl_ctx_alloc(); isl_options_set_on_error(ctx, ISL_ON_ERROR_ABORT); state = cloog_isl_state_malloc(ctx); nd = h_rnd(1, 3); np = h_rnd(0, 2); sp();
    { int f = h_rnd(0, 28); h_alarm_ok = f != 19; if (h_alarm_ok) alarm(20); op(f); } cloog_state_free(state); h_d(" (references at the end)"); isl_ctx_free(ctx); if (h_live != live) h_fail("memory leaked (%ld blocks)", h_live - live);
  }
  return h_done();
}
