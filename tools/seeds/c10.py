exec(open('/verif/tools/seeds/gen_pre.py').read())
SEEDS = [
 dict(id='C10-stride-disjoint', prop='C10', edits=[('source/isl/domain.c', '''						isl_dim_set, first, n);
		set = isl_set_union(set, set_i);
''', '''						isl_dim_set, first, n);
		if (isl_set_plain_is_disjoint(set, set_i)) {
			isl_set_free(set_i);
			continue;
		}
		set = isl_set_union(set, set_i);
''')], needs='a level shared by several statements of which one that comes later in the list has another stride or offset and is obviously disjoint from the ones before it', breaks='the stride of the first domains is taken for all: the instances of the others are skipped',
 demo_c=PRE.split('static const char')[0] + r'''
int main(void) {
  isl_ctx *ctx = isl_ctx_alloc(); const char *t[] = {"{ [0,4] }", "{ [1,i] : 0 <= i <= 30 }", "{ [0,i] : exists a : i = 2a and 0 <= i <= 30 }"}; int k;
  CloogDomainList l[3]; CloogStride *s;
  for (k = 0; k < 3; k++) { l[k].next = k < 2 ? &l[k + 1] : NULL; l[k].domain = cloog_domain_from_isl_set(isl_set_read_from_str(ctx, t[k])); }
  s = cloog_domain_list_stride(l, 2);
  if (s) { printf("the three domains have no common stride\n"); return 1; }
  return 0;
}
'''),
 dict(id='C10-unroll-floor', prop='C10', edits=[('source/isl/domain.c', '''	aff = isl_constraint_get_bound(c, isl_dim_set, level - 1);
	aff = isl_aff_ceil(aff);
	aff = isl_aff_add_coefficient_si(aff, isl_dim_in, level - 1, -1);
''', '''	aff = isl_constraint_get_bound(c, isl_dim_set, level - 1);
	aff = isl_aff_neg(aff);
	aff = isl_aff_ceil(aff);
	aff = isl_aff_neg(aff);
	aff = isl_aff_add_coefficient_si(aff, isl_dim_in, level - 1, -1);
''')], needs='unrolling a level whose lower bound has a coefficient larger than one and depends on an outer variable or a parameter', breaks='the copies are fixed one below the lower bound: the last instance is lost',
 demo_c=PRE + r'''
static void tune(CloogOptions *o) { o->first_unroll = 2; }
int main(void) {
  const char *d[] = {"[M] -> { [i,j] : 0 <= i <= 12 and M <= 3j <= M + 9 }"}, *e[] = {"{ [i,j] : 0 <= i <= 12 and i <= 2j <= i + 7 }"};
  return check(1, d, "[M] -> { : 0 <= M <= 20 }", 1, 0, 20) | check(1, e, "{ : }", 0, 0, 0);
}
'''),
 dict(id='C10-offset-sign', prop='C10', edits=[('source/isl/domain.c', '''	b = isl_aff_neg(b);
	b = isl_aff_add_constant_val(b, cloog_int_to_isl_val(isl_constraint_get_ctx(c), csl->stride->offset));
	b = isl_aff_scale_down_val(b, cloog_int_to_isl_val(isl_constraint_get_ctx(c), csl->stride->stride));
	b = isl_aff_floor(b);
''', '''	b = isl_aff_neg(b);
	b = isl_aff_scale_down_val(b, cloog_int_to_isl_val(isl_constraint_get_ctx(c), csl->stride->stride));
	b = isl_aff_floor(b);
''')], needs='a strided loop with a non-zero offset whose lower bound is symbolic', breaks='the lower bound is moved onto the stride below or above the first point: instances are lost or invented',
 demo_c=PRE.split('static const char')[0] + r'''
int main(void) {
  int lo, sd, off; isl_ctx *ctx = isl_ctx_alloc(); mpz_t z, o; mpz_init(z); mpz_init(o); char t[200];
  for (sd = 2; sd < 7; sd++) for (off = 0; off < sd; off++) { CloogStride *st; CloogDomain *d; isl_set *want, *got;
    mpz_set_si(z, sd); mpz_set_si(o, off); st = cloog_stride_alloc(z, o);
    d = cloog_domain_from_isl_set(isl_set_read_from_str(ctx, "[M] -> { [i] : M <= i <= 50 }"));
    d = cloog_domain_stride_lower_bound(d, 1, st);
    /* smallest value not below M on the stride */
    sprintf(t, "[M] -> { [i] : M <= i <= 50 and (i - %d) mod %d = 0 }", off, sd); want = isl_set_lexmin(isl_set_read_from_str(ctx, t)); got = isl_set_lexmin(isl_set_copy(isl_set_from_cloog_domain(d)));
    if (!isl_set_is_subset(want, got)) { printf("stride %d offset %d: first value is wrong\n", sd, off); return 1; } }
  return 0;
}
'''),
]
