exec(open('/verif/tools/seeds/gen_pre.py').read())
SEEDS = [
 dict(id='C02-elim-newterm', prop='C02', edits=[('source/clast.c', '''			cloog_constraint_coefficient_get(stride->constraint,
							i - 1, &v);
			cloog_int_addmul(line[i], t, v);
''', '''			if (cloog_int_is_zero(line[i]))
				continue;
			cloog_constraint_coefficient_get(stride->constraint,
							i - 1, &v);
			cloog_int_addmul(line[i], t, v);
''')], needs='stride information whose residue depends on an outer iterator that does not occur in the modulo condition being simplified', breaks='the term of that outer iterator is missing from the simplified condition',
 demo_c='#include "source/clast.c"\n' + PRE + r'''
static void tune(CloogOptions *o) { }
int main(void) {
  /* stride on j: j + 2i + 1 = 0 (mod 5); condition c i + j = 0 (mod 5) */
  isl_ctx *ctx = isl_ctx_alloc(); int i, k; long x, y; mpz_t line[4], m, f, s;
  for (k = 0; k < 5; k++) {
    isl_constraint *c = isl_equality_alloc(isl_local_space_from_space(isl_space_set_alloc(ctx, 0, 2))); CloogStride *st; 
    c = isl_constraint_set_coefficient_si(c, isl_dim_set, 1, 1); c = isl_constraint_set_coefficient_si(c, isl_dim_set, 0, 2); c = isl_constraint_set_constant_si(c, 1);
    mpz_init_set_si(s, 5); mpz_init_set_si(f, 4); mpz_init_set_si(m, 5); st = cloog_stride_alloc_from_constraint(s, cloog_constraint_from_isl_constraint(c), f);
    for (i = 0; i < 4; i++) mpz_init_set_si(line[i], i == 1 ? k : i == 2 ? 1 : 0);
    eliminate_using_stride_constraint(line, 4, 2, st, 2, m);
    for (x = -10; x <= 10; x++) for (y = -10; y <= 10; y++) if ((y + 2 * x + 1) % 5 == 0) {
      long a = mpz_get_si(line[1]) * x + mpz_get_si(line[2]) * y + mpz_get_si(line[3]);
      if ((a - (k * x + y)) % 5) { printf("condition changed at i=%ld j=%ld\n", x, y); return 1; } }
  }
  return 0;
}
'''),
 dict(id='C02-lower-shift', prop='C02', edits=[('source/clast.c', '''	if (!cloog_constraint_is_equality(c))
	    cloog_int_add(line[len - 1], line[len - 1], d->bound);
''', '''	if (!cloog_constraint_is_equality(c) && !cloog_constraint_is_valid(d->lower))
	    cloog_int_add(line[len - 1], line[len - 1], d->bound);
''')], needs='a bounded-remainder condition given by its lower bound', breaks='the remainder condition is shifted by the width of the interval',
 demo_c='#include "source/clast.c"\n' + PRE + r'''
static void tune(CloogOptions *o) { }
#include <isl/constraint.h>
#include <isl/local_space.h>
int main(void) {
  long m, bd, c1, x; isl_ctx *ctx = isl_ctx_alloc(); CloogState *st = cloog_isl_state_malloc(ctx); static char *it[] = {"i", "j"};
  for (m = 2; m < 7; m++) for (bd = 0; bd < m - 1; bd++) for (c1 = -5; c1 <= 5; c1++) {
    /* exists j: m j >= i - c1 and m j <= i - c1 + bd, through its lower bound */
    isl_local_space *ls = isl_local_space_from_space(isl_space_set_alloc(ctx, 0, 2)); struct clast_stmt *root = NULL, **next = &root; CloogInfos infos; struct clast_modulo_guard_data data; int sat;
    isl_constraint *lo = isl_inequality_alloc(ls); CloogNames *n = cloog_names_malloc(); n->nb_iterators = 2; n->iterators = it;
    lo = isl_constraint_set_coefficient_si(lo, isl_dim_set, 1, m); lo = isl_constraint_set_coefficient_si(lo, isl_dim_set, 0, -1); lo = isl_constraint_set_constant_si(lo, c1);
    memset(&infos, 0, sizeof infos); infos.names = n; infos.state = st; memset(&data, 0, sizeof data); data.lower = cloog_constraint_from_isl_constraint(lo); data.level = 2; data.next = &next; data.infos = &infos; mpz_init(data.val); mpz_init_set_si(data.bound, bd);
    insert_modulo_guard_constraint(cloog_constraint_from_isl_constraint(lo), &data);
    for (x = -20; x <= 20; x++) { int want = m * fd(x - c1 + bd, m) >= x - c1, have; vn[0] = "i"; vv[0] = x; nv = 1; have = !data.empty; if (root) { struct clast_guard *g = (void *)root; have = ev(g->eq[0].LHS) <= ev(g->eq[0].RHS); } if (have != want) { printf("m=%ld bound=%ld i=%ld: guard %d, should be %d\n", m, bd, x, have, want); return 1; } }
  }
  return 0;
}
'''),
]
