PRE = '''#include "source/clast.c"
#include <isl/ctx.h>
#include <isl/space.h>
#include <isl/constraint.h>
#include <isl/set.h>
#include <isl/aff.h>
#include <isl/local_space.h>
#include <cloog/isl/cloog.h>
#include <cloog/isl/constraintset.h>
static long iv;
static long fd(long a, long b) { long q = a / b; return (q * b != a && (a < 0) != (b < 0)) ? q - 1 : q; }
static long evl(struct clast_expr *e)
{
  if (e->type == clast_expr_name) return iv;
  if (e->type == clast_expr_term) { struct clast_term *t = (void *)e; long c = mpz_get_si(t->val); return t->var ? c * evl(t->var) : c; }
  if (e->type == clast_expr_bin) { struct clast_binary *b = (void *)e; long x = evl(b->LHS), d = mpz_get_si(b->RHS);
    return b->type == clast_bin_fdiv ? fd(x, d) : b->type == clast_bin_cdiv ? -fd(-x, d) : b->type == clast_bin_div ? x / d : x - d * fd(x, d); }
  struct clast_reduction *r = (void *)e; long x = 0; int k;
  for (k = 0; k < r->n; k++) { long y = evl(r->elts[k]); if (r->type == clast_red_sum) x += y; else if (k == 0 || (r->type == clast_red_min ? y < x : y > x)) x = y; }
  return x;
}
static CloogNames *mknames(void)
{ static char *it[] = {"i", "j"}, *pa[] = {"M"}; CloogNames *n = cloog_names_malloc(); n->nb_iterators = 2; n->nb_parameters = 1; n->iterators = it; n->parameters = pa; return n; }
'''
SEEDS = [
 dict(id='C01-const-floor', prop='C01', edits=[('source/clast.c', '''                  cloog_int_sub_ui(temp, division, 1);
''', '''                  cloog_int_sub_ui(temp, division, 1);
                  if (cloog_int_is_zero(division))
                    cloog_int_set(temp, division);
''')], needs='an upper bound with a negative constant smaller in magnitude than the coefficient, not normalised by isl', breaks='the upper bound of -3i-1>=0 becomes 0 instead of -1',
 demo_c=PRE + '''
int main(void) {
  isl_ctx *ctx = isl_ctx_alloc(); long a, k; CloogNames *names = mknames();
  for (a = -7; a <= 7; a++) for (k = -20; k <= 20; k++) { struct clast_expr *e; long b;
    if (!a) continue;
    isl_constraint *c = isl_inequality_alloc(isl_local_space_from_space(isl_space_set_alloc(ctx, 1, 2)));
    c = isl_constraint_set_coefficient_si(c, isl_dim_set, 0, a); c = isl_constraint_set_constant_si(c, k);
    e = clast_bound_from_constraint(cloog_constraint_from_isl_constraint(c), 1, names); b = evl(e);
    if (!(a * b + k >= 0) || a * (b + (a > 0 ? -1 : 1)) + k >= 0) { printf("%ldi+%ld>=0: bound %ld\\n", a, k, b); return 1; } }
  return 0;
}
'''),
 dict(id='C01-stride-update', prop='C01', edits=[('source/clast.c', '''    cloog_int_sub(t->val, t->val, stride->offset);
    cloog_int_cdiv_q(t->val, t->val, stride->stride);
''', '''    cloog_int_sub(t->val, t->val, stride->offset);
    if (cloog_int_is_neg(t->val))
	cloog_int_fdiv_q(t->val, t->val, stride->stride);
    else
    cloog_int_cdiv_q(t->val, t->val, stride->stride);
''')], needs='a strided loop whose constant lower bound lies below the stride offset', breaks='the adjusted lower bound is below the original one, so the loop runs an extra iteration',
 demo_c=PRE + '''
int main(void) {
  isl_ctx *ctx = isl_ctx_alloc(); long s, o, k; CloogState *st = cloog_isl_state_malloc(ctx); CloogOptions *op = cloog_options_malloc(st); CloogNames *names = mknames();
  for (s = 2; s <= 5; s++) for (o = -3; o <= 6; o++) for (k = -9; k <= 9; k++) { char t[99]; struct clast_expr *e; CloogInfos infos; CloogStride *sa[2] = {0}; mpz_t z, w; long b;
    memset(&infos, 0, sizeof infos); mpz_init_set_si(z, s); mpz_init_set_si(w, o); sa[0] = cloog_stride_alloc(z, w); infos.stride = sa; infos.names = names; infos.options = op; infos.state = st;
    sprintf(t, "[M] -> { [i,j] : i >= %ld and i <= 100 and j <= 8 and j >= 0}", k);
    e = clast_minmax(cloog_constraint_set_from_isl_basic_set(isl_basic_set_read_from_str(ctx, t)), 1, 1, 0, 1, 0, &infos);
    b = evl(e); if (b < k || b >= k + s || (b - o) % s) { printf("lower bound %ld stride %ld offset %ld: start %ld\\n", k, s, o, b); return 1; } }
  return 0;
}
'''),
 dict(id='C01-guard-involves', prop='C01', edits=[('source/clast.c', '''    if (d->guard && cloog_constraint_involves(c, d->guard - 1))
	return 0;
''', '''    if (d->guard && cloog_constraint_involves(c, d->guard - 1) &&
	(d->max || d->guard < d->level))
	return 0;
''')], needs='a minimum over a set in which an upper bound involves a guarded variable of a deeper level', breaks='the guard minimum includes a constraint that involves the guarded variable',
 demo_c=PRE + '''
static int uses(struct clast_expr *e) { int k; if (!e) return 0; if (e->type == clast_expr_name) return !strcmp(((struct clast_name *)e)->name, "j"); if (e->type == clast_expr_term) return ((struct clast_term *)e)->var && uses(((struct clast_term *)e)->var);
  if (e->type == clast_expr_bin) return uses(((struct clast_binary *)e)->LHS); for (k = 0; k < ((struct clast_reduction *)e)->n; k++) if (uses(((struct clast_reduction *)e)->elts[k])) return 1; return 0; }
int main(void) {
  isl_ctx *ctx = isl_ctx_alloc(); CloogState *st = cloog_isl_state_malloc(ctx); CloogOptions *op = cloog_options_malloc(st); CloogInfos infos; CloogNames *n = mknames(); CloogStride *sa[3] = {0};
  memset(&infos, 0, sizeof infos); infos.stride = sa; infos.names = n; infos.options = op; infos.state = st;
  struct clast_expr *e = clast_minmax(cloog_constraint_set_from_isl_basic_set(isl_basic_set_read_from_str(ctx, "[M] -> { [i,j] : i <= j and i <= M and i >= 0 }")), 1, 0, 2, 0, 0, &infos);
  if (!e) return 2;
  if (uses(e)) { printf("bound involves the guarded iterator\\n"); return 1; }
  return 0;
}
'''),
]
