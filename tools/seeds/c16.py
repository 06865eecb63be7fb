PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>
#include <isl/ctx.h>
#include <isl/space.h>
#include <isl/set.h>
#include <isl/map.h>
#include <cloog/isl/cloog.h>
#include <cloog/isl/domain.h>
'''
SEEDS = [
 dict(id='C16-bounds-zero', prop='C16', edits=[('source/isl/domain.c', '''    domain = isl_set_lower_bound_val(domain, isl_dim_set, i, min_v);
    domain = isl_set_upper_bound_val(domain, isl_dim_set, i, max_v);
''', '''    if (isl_val_eq(min_v, max_v)) {
      domain = isl_set_fix_val(domain, isl_dim_set, dim - 1, min_v);
      isl_val_free(max_v);
      continue;
    }
    domain = isl_set_lower_bound_val(domain, isl_dim_set, i, min_v);
    domain = isl_set_upper_bound_val(domain, isl_dim_set, i, max_v);
''')], needs='a box with an outer dimension whose lower and upper bound coincide', breaks='the wrong dimension is fixed, so the box is wrong',
 demo_c=PRE + '''
int main(void) {
  isl_ctx *ctx = isl_ctx_alloc(); CloogState *st = cloog_isl_state_malloc(ctx); struct cloog_vec *lo = cloog_vec_alloc(2), *hi = cloog_vec_alloc(2); CloogDomain *d; isl_set *w; int e;
  cloog_int_set_si(lo->p[0], 3); cloog_int_set_si(hi->p[0], 3); cloog_int_set_si(lo->p[1], 1); cloog_int_set_si(hi->p[1], 5);
  d = cloog_domain_from_bounds(st, lo, hi);
  w = isl_set_read_from_str(ctx, "{ [i,j] : i = 3 and 1 <= j <= 5 }");
  e = isl_set_is_equal(w, isl_set_from_cloog_domain(d));
  if (e != 1) { printf("wrong box\\n"); return 1; }
  return 0;
}
'''),
 dict(id='C16-const-union', prop='C16', edits=[('source/isl/domain.c', '''	isl_set *set = isl_set_from_cloog_domain(domain);
	isl_val *cst = isl_set_plain_get_val_if_fixed(set, isl_dim_set, dimension);
''', '''	isl_set *set = isl_set_from_cloog_domain(domain);
	isl_basic_set_list *list = isl_set_get_basic_set_list(set);
	isl_val *cst;
	if (isl_basic_set_list_n_basic_set(list) > 2) {
		isl_set *piece = isl_set_from_basic_set(
				isl_basic_set_list_get_basic_set(list, 0));
		cst = isl_set_plain_get_val_if_fixed(piece, isl_dim_set, dimension);
		isl_set_free(piece);
	} else
		cst = isl_set_plain_get_val_if_fixed(set, isl_dim_set, dimension);
	isl_basic_set_list_free(list);
''')], needs='a union of at least three pieces whose first piece fixes the dimension', breaks='a dimension that takes several values is reported constant',
 demo_c=PRE + '''
int main(void) {
  isl_ctx *ctx = isl_ctx_alloc(); cloog_int_t v; const char *s[] = {"{ [i] : i = 1 }", "{ [i] : i >= 5 }", "{ [i] : i <= -5 }"}; int a, b, c;
  cloog_int_init(v);
  for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) for (c = 0; c < 3; c++) if (a != b && b != c && a != c) {
    isl_set *u = isl_set_union(isl_set_read_from_str(ctx, s[a]), isl_set_union(isl_set_read_from_str(ctx, s[b]), isl_set_read_from_str(ctx, s[c])));
    CloogDomain *d = cloog_domain_from_isl_set(u);
    if (cloog_domain_lazy_isconstant(d, 0, &v)) { printf("not constant\\n"); return 1; }
    cloog_domain_free(d);
  }
  return 0;
}
'''),
 dict(id='C16-cut-rest', prop='C16', edits=[('source/isl/domain.c', '''	for (i = 1; i < n; ++i) {
		set = isl_set_union(set, isl_set_from_basic_set(
			isl_basic_set_list_get_basic_set(list, i)));
	}
''', '''	for (i = 1; i < n; ++i) {
		isl_set *piece = isl_set_from_basic_set(
			isl_basic_set_list_get_basic_set(list, i));
		/* pieces touching only the last one are already covered */
		if (i > 1 && isl_set_plain_is_disjoint(piece, set) == 0 &&
		    isl_set_is_subset(set, piece))
			isl_set_free(piece);
		else
			set = isl_set_union(set, piece);
	}
''')], needs='a union of three or more pieces with a later piece containing an earlier one', breaks='splitting off the first piece loses points of the remainder',
 demo_c=PRE + '''
int main(void) {
  isl_ctx *ctx = isl_ctx_alloc(); const char *s[] = {"{ [i] : 0 <= i <= 3 }", "{ [i] : 20 <= i <= 23 }", "{ [i] : 18 <= i <= 40 }"}; int a, b, c;
  for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) for (c = 0; c < 3; c++) if (a != b && b != c && a != c) {
    isl_set *u = isl_set_union(isl_set_read_from_str(ctx, s[a]), isl_set_union(isl_set_read_from_str(ctx, s[b]), isl_set_read_from_str(ctx, s[c])));
    CloogDomain *r, *f = cloog_domain_cut_first(cloog_domain_from_isl_set(isl_set_copy(u)), &r);
    if (isl_set_is_equal(u, isl_set_from_cloog_domain(cloog_domain_union(f, r))) != 1) { printf("lost points\\n"); return 1; }
  }
  return 0;
}
'''),
]
