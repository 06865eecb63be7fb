exec(open('/verif/tools/seeds/gen_pre.py').read())
SEEDS = [
 dict(id='C06-disjoint-seen', prop='C06', edits=[('source/loop.c', '''      seen = cloog_domain_union(seen, domain);
    }
''', '''      if (cloog_domain_isconvex(domain))
	seen = cloog_domain_union(seen, domain);
      else
	cloog_domain_free(domain);
    }
''')], needs='a statement domain that is a union of three or more overlapping pieces, a middle one of which is cut into a non-convex remainder', breaks='the later piece is not made disjoint from the middle one: instances in their overlap are executed twice',
 demo_c=PRE + r'''
static void tune(CloogOptions *o) { }
int main(void) {
  const char *d[] = {"{ [i,j] : 3 <= i <= 5 and 3 <= j <= 5; [i,j] : 0 <= i <= 9 and 1 <= j <= 8; [i,j] : 0 <= i + j <= 9 and 0 <= i - j <= 12 }"};
  const char *e[] = {"{ [i,j] : 0 <= i <= 9 and 1 <= j <= 8; [i,j] : 0 <= i + j <= 9 and 0 <= i - j <= 12; [i,j] : 3 <= i <= 5 and 3 <= j <= 5 }"};
  const char *f[] = {"{ [i,j] : 0 <= i + j <= 9 and 0 <= i - j <= 12; [i,j] : 5 <= 2i + j <= 22 and -8 <= i - 2j <= 3; [i,j] : 0 <= i <= 9 and 1 <= j <= 8;  [i,j] : 1 <= 3i + j <= 32 and -18 <= i - 3j <= 3 }"};
  return check(1, d, "{ : }", 0, 0, 0) | check(1, e, "{ : }", 0, 0, 0) | check(1, f, "{ : }", 0, 0, 0);
}
'''),
 dict(id='C06-constant-union', prop='C06', edits=[('source/loop.c', '''	inner = cloog_loop_concat(inner, tmp->inner);
	domain = cloog_domain_union(domain, tmp->domain);
''', '''	inner = cloog_loop_concat(inner, tmp->inner);
	/* the hull covers a domain that shares points with it */
	if (tmp->next && !cloog_domain_lazy_disjoint(domain, tmp->domain))
	    cloog_domain_free(tmp->domain);
	else
	    domain = cloog_domain_union(domain, tmp->domain);
''')], needs='three statements with the same constant dimension, the second of which reaches beyond the first and the last', breaks='the merged domain does not cover the middle statement, whose instances outside are lost',
 demo_c=PRE + r'''
static void tune(CloogOptions *o) { }
int main(void) {
  const char *s[] = {"[M] -> { [i,j] : i = 3 and 0 <= j <= 3 and M >= 3 }", "[M] -> { [i,j] : i = 3 and 2 <= j <= 9 and M <= 5 }", "[M] -> { [i,j] : i = 3 and 0 <= j <= 5 and M = 4 }", "[M] -> { [i,j] : i = 3 and 0 <= j <= M }"}; int a, b, c, r = 0;
  for (a = 0; a < 4; a++) for (b = 0; b < 4; b++) for (c = 0; c < 4; c++) { const char *d[] = {s[a], s[b], s[c]}; r |= check(3, d, "[M] -> { : 0 <= M <= 9 }", 1, 0, 9); }
  return r;
}
'''),
]
