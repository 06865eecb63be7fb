PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <cloog/isl/cloog.h>
'''
SEEDS = [
 dict(id='C04-cmp-null-var', prop='C04', edits=[('source/clast.c', '''    if (!t1->var && t2->var)
	return -1;
    if (t1->var && !t2->var)
	return 1;
    c = clast_expr_cmp(t1->var, t2->var);
''', '''    if (cloog_int_is_zero(t1->val) && cloog_int_is_zero(t2->val) && t1->var)
	return 0;
    if (!t1->var && t2->var)
	return -1;
    if (t1->var && !t2->var)
	return 1;
    if (cloog_int_eq(t1->val, t2->val) && cloog_int_is_one(t1->val) &&
	t1->var && t1->var->type == t2->var->type &&
	t1->var->type == clast_expr_bin)
	return ((struct clast_binary *)t1->var)->type -
		((struct clast_binary *)t2->var)->type;
    c = clast_expr_cmp(t1->var, t2->var);
''')], needs='two unit terms over divisions of the same kind with different operands', breaks='different division expressions wrapped in a unit term compare equal, so a loop can be collapsed wrongly',
 demo_c=PRE + '''
static struct clast_expr *mk(int k) {
  cloog_int_t c; cloog_int_init(c);
  cloog_int_set_si(c, 1);
  struct clast_expr *n = &new_clast_term(c, &new_clast_name("i")->expr)->expr;
  cloog_int_set_si(c, k);
  struct clast_expr *b = &new_clast_binary(clast_bin_fdiv, n, c)->expr;
  cloog_int_set_si(c, 1);
  return &new_clast_term(c, b)->expr;
}
int main(void) {
  if (!clast_expr_equal(mk(3), mk(3))) return 2;
  if (clast_expr_equal(mk(2), mk(3))) { printf("floord(i,2) reported equal to floord(i,3)\\n"); return 1; }
  return 0;
}
'''),
 dict(id='C04-red-prefix', prop='C04', edits=[('source/clast.c', '''    if (r1->n != r2->n)
	return r1->n - r2->n;
    for (i = 0; i < r1->n; ++i)
	if ((c =''', '''    if (r1->n != r2->n && (r1->type != clast_red_max || r1->n < r2->n))
	return r1->n - r2->n;
    for (i = 0; i < r2->n; ++i)
	if ((c =''')], needs='two max reductions where the second is a strict prefix of the first', breaks='max(a,b,c) reported equal to max(a,b)',
 demo_c=PRE + '''
static struct clast_expr *mk(int n) {
  static const char *nm[] = {"a", "b", "c"}; int i;
  cloog_int_t c; cloog_int_init(c); cloog_int_set_si(c, 1);
  struct clast_reduction *r = new_clast_reduction(clast_red_max, n);
  for (i = 0; i < n; ++i) r->elts[i] = &new_clast_term(c, &new_clast_name(nm[i])->expr)->expr;
  return &r->expr;
}
int main(void) {
  if (!clast_expr_equal(mk(3), mk(3))) return 2;
  if (clast_expr_equal(mk(3), mk(2)) || clast_expr_equal(mk(2), mk(3))) { printf("max(a,b,c) reported equal to max(a,b)\\n"); return 1; }
  return 0;
}
'''),
]
