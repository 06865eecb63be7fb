exec(open('/verif/tools/seeds/gen_pre.py').read())
NT = 'static void tune(CloogOptions *o) { }\n'
SEEDS = [
 dict(id='C01-otl-guard', prop='C01', edits=[('source/clast.c', '''    guard = new_clast_guard(1);
    guard->eq[0].sign = -1;
''', '''    /* constant bounds have already been compared by the caller */
    if (e2 && e2->type == clast_expr_red &&
	    ((struct clast_reduction *) e2)->n == 1 &&
	    ((struct clast_reduction *) e2)->elts[0]->type == clast_expr_term &&
	    !((struct clast_term *) ((struct clast_reduction *) e2)->elts[0])->var) {
	free_clast_expr(e2);
	return;
    }

    guard = new_clast_guard(1);
    guard->eq[0].sign = -1;
''')], needs='a loop executed at most once with a constant upper bound and a variable lower bound', breaks='the single iteration is executed even beyond the upper bound',
 demo_c='#include "source/clast.c"\n' + PRE + NT + r'''
int main(void) {
  long k, m; isl_ctx *ctx = isl_ctx_alloc(); CloogState *st = cloog_isl_state_malloc(ctx); static char *it[] = {"i"}, *pa[] = {"M"};
  for (k = -3; k <= 5; k++) {
    char buf[100]; struct clast_stmt *root = NULL, **next = &root; CloogInfos infos; CloogNames *n = cloog_names_malloc(); isl_basic_set *b; CloogStride *str[1] = { NULL };
    n->nb_iterators = 1; n->iterators = it; n->nb_parameters = 1; n->parameters = pa;
    sprintf(buf, "[M] -> { [i] : M <= i <= %ld }", k); b = isl_basic_set_read_from_str(ctx, buf);
    memset(&infos, 0, sizeof infos); infos.names = n; infos.state = st; infos.options = cloog_options_malloc(st); infos.stride = str; infos.stride_level = 1;
    insert_for(NULL, cloog_constraint_set_from_isl_basic_set(b), 1, 1, &next, &infos);
    for (m = k - 4; m <= k + 4; m++) { int ok = 1; struct clast_stmt *s; vn[0] = "M"; vv[0] = m; nv = 1;
      for (s = root; s && ok; s = CLAST_STMT_IS_A(s, stmt_guard) ? ((struct clast_guard *)s)->then : s->next)
        if (CLAST_STMT_IS_A(s, stmt_ass)) { vn[1] = "i"; vv[1] = ev(((struct clast_assignment *)s)->RHS); nv = 2; }
        else if (CLAST_STMT_IS_A(s, stmt_guard)) { struct clast_guard *g = (void *)s; ok = ev(g->eq[0].LHS) <= ev(g->eq[0].RHS); }
      if (ok != (m <= k)) { printf("M=%ld: the iteration %s, bounds M <= i <= %ld\n", m, ok ? "is executed" : "is left out", k); return 1; } }
  }
  return 0;
}
'''),
]
