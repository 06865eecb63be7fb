PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>
#include <isl/ctx.h>
#include <isl/options.h>
#include <isl/space.h>
#include <isl/set.h>
#include <isl/constraint.h>
#include <cloog/isl/cloog.h>
#include <cloog/isl/domain.h>
'''
SEEDS = [
 dict(id='C07-name-intern', prop='C07', edits=[('source/statement.c', '''    temp->name = source->name ? strdup(source->name) : NULL;
''', '''    if (now != NULL && now->name != NULL && source->name != NULL &&
	!strcmp(now->name, source->name))
      temp->name = now->name;	/* same text as the previous copy */
    else
      temp->name = source->name ? strdup(source->name) : NULL;
''')], needs='copying a statement list with two consecutive statements of the same name', breaks='the two copies share one name string, which is then freed twice',
 demo_c=PRE + '''
int main(void) {
  CloogState *st = cloog_state_malloc(); CloogStatement *a = cloog_statement_alloc(st, 1), *b = cloog_statement_alloc(st, 2), *c;
  a->name = strdup("S"); b->name = strdup("S"); a->next = b;
  c = cloog_statement_copy(a);
  if (c->name == c->next->name) { printf("shared name\\n"); return 1; }
  cloog_statement_free(c); cloog_statement_free(a); cloog_state_free(st);
  return 0;
}
'''),
 dict(id='C07-merge-refs', prop='C07', edits=[('source/block.c', '''  merged->statement = NULL;
  cloog_block_free(merged);
''', '''  merged->statement = NULL;
  if (block->statement == NULL && merged->references == 1) {
    cloog_block_leak_down(merged->state);
    free(merged->scaldims);
    free(merged);
    return;
  }
  cloog_block_free(merged);
''')], needs='merging two statement-less blocks, the second one holding (large) scalar dimensions', breaks='the multi-precision scalar dimensions of the merged block are never cleared',
 demo_c=PRE + '''
static long live;
static void *al(size_t n) { live++; return malloc(n); }
static void *re(void *p, size_t o, size_t n) { return realloc(p, n); }
static void fr(void *p, size_t n) { live--; free(p); }
int main(void) {
  CloogState *st; CloogBlock *a, *b; long before;
  mp_set_memory_functions(al, re, fr);
  st = cloog_state_malloc();
  before = live;
  a = cloog_block_malloc(st); b = cloog_block_malloc(st);
  b->nb_scaldims = 1; b->scaldims = malloc(sizeof(cloog_int_t));
  cloog_int_init(b->scaldims[0]); cloog_int_set_si(b->scaldims[0], 12345);
  cloog_block_merge(a, b);
  cloog_block_free(a);
  if (live != before) { printf("leak %ld\\n", live - before); return 1; }
  cloog_state_free(st);
  return 0;
}
'''),
 dict(id='C07-stride-constraint', prop='C07', edits=[('source/stride.c', '''	cloog_int_clear(stride->factor);
	cloog_constraint_release(stride->constraint);
''', '''	if (!cloog_int_is_zero(stride->factor))
		cloog_constraint_release(stride->constraint);
	cloog_int_clear(stride->factor);
''')], needs='a stride built from a constraint with factor zero', breaks='the constraint held by the stride is never released',
 demo_c=PRE + '''
int main(void) {
  isl_ctx *ctx = isl_ctx_alloc(); isl_options_set_on_error(ctx, ISL_ON_ERROR_ABORT); 
  isl_constraint *k; CloogStride *s; cloog_int_t a, f;
  isl_space *sp = isl_space_set_alloc(ctx, 0, 2);
  cloog_int_init(a); cloog_int_init(f); cloog_int_set_si(a, 3); cloog_int_set_si(f, 0);
  k = isl_constraint_alloc_equality(isl_local_space_from_space(sp));
  s = cloog_stride_alloc_from_constraint(a, cloog_constraint_from_isl_constraint(isl_constraint_copy(k)), f);
  cloog_stride_copy(s); cloog_stride_free(s); cloog_stride_free(s);
  isl_constraint_free(k);
  isl_ctx_free(ctx); /* complains when references remain */
  return 0;
}
'''),
 dict(id='C07-cut-leak', prop='C07', edits=[('source/isl/domain.c', '''	for (i = 1; i < n; ++i) {
		set = isl_set_union(set, isl_set_from_basic_set(
			isl_basic_set_list_get_basic_set(list, i)));
	}
	isl_basic_set_list_free(list);
''', '''	for (i = 1; i < n; ++i) {
		set = isl_set_union(set, isl_set_from_basic_set(
			isl_basic_set_list_get_basic_set(list, i)));
	}
	if (n > 1)
		isl_basic_set_list_free(list);
	else if (!isl_basic_set_plain_is_universe(first))
		isl_basic_set_list_free(list);
''')], needs='splitting the first piece off a domain that is the universe', breaks='the list of pieces is leaked',
 demo_c=PRE + '''
int main(void) {
  isl_ctx *ctx = isl_ctx_alloc(); isl_options_set_on_error(ctx, ISL_ON_ERROR_ABORT); CloogState *st = cloog_isl_state_malloc(ctx); CloogDomain *d, *r, *f;
  d = cloog_domain_universe(st, 2);
  f = cloog_domain_cut_first(d, &r);
  cloog_domain_free(f); cloog_domain_free(r);
  cloog_state_free(st);
  isl_ctx_free(ctx);
  return 0;
}
'''),
]
