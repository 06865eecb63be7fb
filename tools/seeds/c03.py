PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <cloog/isl/cloog.h>
static struct clast_expr *name(const char *s) { return &new_clast_name(s)->expr; }
static struct clast_expr *term(const char *c, struct clast_expr *v) { mpz_t z; mpz_init_set_str(z, c, 10); return &new_clast_term(z, v)->expr; }
static struct clast_expr *sum(struct clast_expr *a, struct clast_expr *b) { struct clast_reduction *r = new_clast_reduction(clast_red_sum, b ? 2 : 1); r->elts[0] = a; if (b) r->elts[1] = b; return &r->expr; }
static struct clast_expr *bin(enum clast_bin_type t, struct clast_expr *a, const char *c) { mpz_t z; mpz_init_set_str(z, c, 10); return &new_clast_binary(t, a, z)->expr; }
static char *text(struct clast_expr *e, int lang)
{ char *t; size_t n; FILE *f = open_memstream(&t, &n); CloogState *s = cloog_state_malloc(); CloogOptions *o = cloog_options_malloc(s); o->language = lang; clast_pprint_expr(o, f, e); fclose(f); return t; }
static long I, J; static const char *p;
static long S(void);
static long P(void)
{ long v; if (*p == '(') { p++; v = S(); if (*p == ')') p++; return v; } if (*p == 'i') { p++; return I; } if (*p == 'j') { p++; return J; } if (*p < '0' || *p > '9') { printf("unreadable: %s\\n", p); exit(1); } return strtol(p, (char **)&p, 10); }
static long M(void) { long v; if (*p == '-') { p++; v = -P(); } else v = P(); while (*p == '*' || *p == '/') { if (*p++ == '*') v *= P(); else v /= P(); } return v; }
static long S(void) { long v = M(); while (*p == '+' || *p == '-') { if (*p++ == '+') v += M(); else v -= M(); } return v; }
'''
SEEDS = [
 dict(id='C03-neg-group', prop='C03', edits=[('source/pprint.c', '''		    ((struct clast_reduction*) t->var)->n > 1;
	if (cloog_int_is_one(t->val))
''', '''		    ((struct clast_reduction*) t->var)->n > 1 &&
		    !cloog_int_is_one(t->val) && !cloog_int_is_neg_one(t->val);
	if (cloog_int_is_one(t->val))
''')], needs='a term with coefficient -1 whose variable is a sum of several terms', breaks='-(i+j) is printed as -i+j',
 demo_c=PRE + '''
int main(void)
{ char *t; struct clast_expr *e = sum(term("5", NULL), term("-1", sum(term("1", name("i")), term("1", name("j")))));
  t = text(e, CLOOG_LANGUAGE_C); for (I = -3; I < 4; I++) for (J = -3; J < 4; J++) { p = t; if (S() != 5 - (I + J)) { printf("5-(i+j) printed as %s\\n", t); return 1; } }
  return 0; }
'''),
 dict(id='C03-guard-dup', prop='C03', edits=[('source/pprint.c', '''    for (k = 0; k < g->n; ++k) {
	if (k > 0) {
''', '''    for (k = 0; k < g->n; ++k) {
	if (k > 0 && g->eq[k].sign == g->eq[k-1].sign &&
	    clast_expr_equal(g->eq[k].LHS, g->eq[k-1].LHS))
	    continue;
	if (k > 0) {
''')], needs='two consecutive conditions with the same left-hand side and sign', breaks='the second condition is not printed',
 demo_c=PRE + '''
int main(void)
{ char *t; size_t n; FILE *f = open_memstream(&t, &n); CloogState *s = cloog_state_malloc(); CloogOptions *o = cloog_options_malloc(s);
  struct clast_root *r = new_clast_root(cloog_names_malloc()); struct clast_guard *g = new_clast_guard(2); struct clast_assignment *a = new_clast_assignment("x", term("1", NULL)); int k;
  for (k = 0; k < 2; k++) { g->eq[k].LHS = name("i"); g->eq[k].RHS = name(k ? "M" : "N"); g->eq[k].sign = 1; }
  g->then = &a->stmt; r->stmt.next = &g->stmt; clast_pprint(f, &r->stmt, 0, o); fclose(f);
  if (!strstr(t, "i >= N") || !strstr(t, "i >= M")) { printf("i>=N && i>=M printed as %s\\n", t); return 1; }
  return 0; }
'''),
 dict(id='C03-long-const', prop='C03', edits=[('source/pprint.c', '''    } else
	cloog_int_print(dst, t->val);
}
''', '''    } else
	fprintf(dst, "%ld", mpz_get_si(t->val));
}
''')], needs='a constant that does not fit a long, as GMP builds support', breaks='the constant is printed modulo 2^64',
 demo_c=PRE + '''
int main(void)
{ char *t = text(sum(term("1", name("i")), term("36893488147419103233", NULL)), CLOOG_LANGUAGE_C); if (strcmp(t, "i+36893488147419103233")) { printf("i + 36893488147419103233 printed as %s\\n", t); return 1; } return 0; }
'''),
]
