/* printed text against the tree: random trees are printed, read back with the language's own precedence
   rules and compared, at several environments, with the value and structure of the tree */
#include "common.h"
#include "alloc.h"
#include "../source/clast.c"
#include "../source/pprint.c"
#undef malloc
#undef free
#include "tree.h"
static CloogState *state; static CloogOptions *o; static int fort;
static struct clast_expr *gS(int d);
static struct clast_expr *gname(void) { return &new_clast_name(t_names[0][h_rnd(0, NNAMES - 1)])->expr; }
static struct clast_expr *gsum(int d, int n);
static struct clast_expr *gA(int d)
{
  mpz_t z; struct clast_expr *e; int k, n; mpz_init(z);
  if (d <= 0 || h_coin(3)) e = gname();
  else if (h_coin(2)) { mpz_set_si(z, h_rnd(1, 5)); e = &new_clast_binary(h_coin(2) ? clast_bin_fdiv : clast_bin_cdiv, gS(d - 1), z)->expr; }
  else { struct clast_reduction *r = new_clast_reduction(h_coin(2) ? clast_red_min : clast_red_max, n = h_rnd(2, 4)); for (k = 0; k < n; k++) r->elts[k] = gS(d - 1); e = &r->expr; }
  mpz_clear(z); return e;
}
static struct clast_expr *gterm(int d)
{
  mpz_t z; struct clast_expr *e; mpz_init(z); t_const(z);
  e = &new_clast_term(z, h_coin(4) ? NULL : d > 0 && h_coin(4) ? gsum(d - 1, h_rnd(2, 3)) : gA(d))->expr; mpz_clear(z); return e;
}
static struct clast_expr *gsum(int d, int n) { struct clast_reduction *r = new_clast_reduction(clast_red_sum, n); int k; for (k = 0; k < n; k++) r->elts[k] = gterm(d); return &r->expr; }
static struct clast_expr *gP(int d)
{
  mpz_t z; struct clast_expr *e; if (h_coin(2)) return gA(d); if (d <= 0 || h_coin(2)) return gterm(d);
  mpz_init(z); mpz_set_si(z, h_rnd(1, 5)); e = &new_clast_binary(h_coin(2) ? clast_bin_div : clast_bin_mod, h_coin(2) ? gsum(d - 1, h_rnd(1, 3)) : gP(d - 1), z)->expr; mpz_clear(z); return e;
}
static struct clast_expr *gS(int d)
{
  if (d > 0 && h_coin(8)) { struct clast_reduction *r = new_clast_reduction(h_coin(2) ? clast_red_min : clast_red_max, 1); r->elts[0] = gS(d - 1); return &r->expr; }
  return h_coin(3) ? gP(d) : gsum(d, h_rnd(1, 4));
}
/* value of the tree; the remainder is the target language's (truncating) one */
static void ev(struct clast_expr *e, mpz_t z)
{
  switch (e->type) {
  case clast_expr_term: { struct clast_term *t = (void *)e; if (t->var) { ev(t->var, z); mpz_mul(z, z, t->val); } else mpz_set(z, t->val); break; }
  case clast_expr_bin: { struct clast_binary *b = (void *)e; ev(b->LHS, z); switch (b->type) { case clast_bin_fdiv: mpz_fdiv_q(z, z, b->RHS); break; case clast_bin_cdiv: mpz_cdiv_q(z, z, b->RHS); break; case clast_bin_div: mpz_tdiv_q(z, z, b->RHS); break; default: mpz_tdiv_r(z, z, b->RHS); } break; }
  case clast_expr_red: { struct clast_reduction *r = (void *)e; int k; mpz_t y; mpz_init(y); mpz_set_si(z, 0); for (k = 0; k < r->n; k++) { ev(r->elts[k], y); if (r->type == clast_red_sum) mpz_add(z, z, y); else if (!k || (r->type == clast_red_min ? mpz_cmp(y, z) < 0 : mpz_cmp(y, z) > 0)) mpz_set(z, y); } mpz_clear(y); break; }
  default: t_eval(e, z);
  }
}
/* reader */
static const char *p0, *p; static char *text; static mpz_t xlb, xub; static int havelb, haveub;
static void bad(const char *what) { char b[60]; snprintf(b, sizeof b, "%s", p); h_d(" text: %.1500s", text); h_fail("printed text: %s at \"%s\"", what, b); }
static void ws(void) { while (*p == ' ' || *p == '\t' || (!fort && *p == '\n')) p++; }
static int tok(const char *s) { size_t n = strlen(s); ws(); if (!strncmp(p, s, n)) { p += n; return 1; } return 0; }
static void want(const char *s) { if (!tok(s)) { char b[80]; snprintf(b, sizeof b, "expected \"%s\"", s); bad(b); } }
static void ident(char *b) { int n = 0; ws(); while (*p == '_' || (*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z') || (n && *p >= '0' && *p <= '9')) { if (n < 60) b[n++] = *p; p++; } b[n] = 0; }
static void sum(mpz_t z);
static void prim(mpz_t z)
{
  char b[64]; mpz_t y; ws();
  if (tok("(")) { sum(z); want(")"); return; }
  if (*p == '-' || *p == '+') bad("second sign");
  if (*p >= '0' && *p <= '9') { int n = 0; char d[200]; while (*p >= '0' && *p <= '9') { if (n < 190) d[n++] = *p; p++; } d[n] = 0; if ((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z')) bad("glued tokens"); mpz_set_str(z, d, 10); return; }
  ident(b); if (!*b) bad("operand expected");
  mpz_init(y);
  if (!fort && (!strcmp(b, "floord") || !strcmp(b, "ceild"))) { want("("); sum(z); want(","); sum(y); want(")"); if (mpz_sgn(y) <= 0) bad("divisor"); if (*b == 'f') mpz_fdiv_q(z, z, y); else mpz_cdiv_q(z, z, y); }
  else if (fort && (!strcmp(b, "FLOOR") || !strcmp(b, "CEILING"))) { want("("); want("REAL"); want("("); sum(z); want(")"); want("/"); want("REAL"); want("("); sum(y); want(")"); want(")"); if (mpz_sgn(y) <= 0) bad("divisor"); if (*b == 'F') mpz_fdiv_q(z, z, y); else mpz_cdiv_q(z, z, y); }
  else if (fort && !strcmp(b, "MOD")) { want("("); sum(z); want(","); sum(y); want(")"); mpz_tdiv_r(z, z, y); }
  else if (!strcmp(b, fort ? "MAX" : "max") || !strcmp(b, fort ? "MIN" : "min")) { int mx = b[1] == 'A' || b[1] == 'a', n = 1; want("("); sum(z); while (tok(",")) { sum(y); n++; if (mx ? mpz_cmp(y, z) > 0 : mpz_cmp(y, z) < 0) mpz_set(z, y); } want(")"); if (n < 2 || (!fort && n != 2)) bad("number of arguments"); }
  else { ws(); if (*p == '(') bad("unknown function"); if (!strcmp(b, "lbp") || !strcmp(b, "lbv")) { if (!havelb) bad("lower bound variable not set"); mpz_set(z, xlb); } else if (!strcmp(b, "ubp") || !strcmp(b, "ubv")) { if (!haveub) bad("upper bound variable not set"); mpz_set(z, xub); } else mpz_set_si(z, t_lookup(b)); }
  mpz_clear(y);
}
static void prod(mpz_t z, int neg)
{
  mpz_t y; prim(z); mpz_init(y); if (neg && !fort) mpz_neg(z, z);
  for (;;) { ws(); if (*p == '*') { p++; prim(y); mpz_mul(z, z, y); } else if (*p == '/' && p[1] != '*' && p[1] != '/') { p++; prim(y); if (!mpz_sgn(y)) bad("division by zero"); mpz_tdiv_q(z, z, y); } else if (*p == '%' && !fort) { p++; prim(y); if (!mpz_sgn(y)) bad("division by zero"); mpz_tdiv_r(z, z, y); } else break; }
  if (neg && fort) mpz_neg(z, z); mpz_clear(y);
}
static void sum(mpz_t z)
{
  mpz_t y; int s = 0; mpz_init(y); ws(); if (*p == '-') { s = 1; p++; } prod(z, s);
  for (;;) { ws(); if (*p == '+') { p++; prod(y, 0); mpz_add(z, z, y); } else if (*p == '-') { p++; prod(y, 0); mpz_sub(z, z, y); } else break; }
  mpz_clear(y);
}
static void same(struct clast_expr *e, const char *what)
{
  mpz_t x, y; mpz_init(x); mpz_init(y); sum(x); ev(e, y);
  if (mpz_cmp(x, y)) { char *a = mpz_get_str(NULL, 10, x), *b = mpz_get_str(NULL, 10, y); h_d(" tree="); t_show(e); h_d(" text: %.1500s (i=%d j=%d M=%d N=%d)", text, t_env[0], t_env[1], t_env[2], t_env[3]); h_fail("%s: the printed text has value %s, the tree %s", what, a, b); }
  mpz_clear(x); mpz_clear(y);
}
/* statements */
static CloogStatement *stm(void) { CloogStatement *s = cloog_statement_alloc(state, h_rnd(1, 40)); if (h_coin(2)) { s->name = h_malloc(8); strcpy(s->name, h_coin(2) ? "foo" : "T1"); } return s; }
static char *sdup(const char *s) { char *r = h_malloc(strlen(s) + 1); strcpy(r, s); return r; }
static CloogStatement *pool[64]; static int npool;
static struct clast_stmt *gstmts(int d)
{
  struct clast_stmt *first = NULL, **nx = &first; int n = h_rnd(d > 2 ? 1 : 0, 3), k, m; mpz_t z; mpz_init(z);
  while (n--) {
    struct clast_stmt *s;
    switch (d <= 0 ? h_rnd(0, 1) : h_rnd(0, 4)) {
    case 0: { struct clast_user_stmt *u; struct clast_stmt *a = NULL, **an = &a; m = h_rnd(0, 3); for (k = 0; k < m; k++) { *an = &new_clast_assignment(h_coin(4) ? "i" : NULL, gS(2))->stmt; an = &(*an)->next; } if (npool < 60) pool[npool++] = stm(); u = new_clast_user_stmt(NULL, pool[npool - 1], a); s = &u->stmt; break; }
    case 1: s = &new_clast_assignment(t_names[0][h_rnd(0, 1)], gS(2))->stmt; break;
    case 2: { struct clast_guard *g = new_clast_guard(m = h_rnd(1, 3)); for (k = 0; k < m; k++) { g->eq[k].LHS = gS(2); g->eq[k].RHS = gS(1); g->eq[k].sign = h_rnd(-1, 1) * h_rnd(1, 2); } g->then = gstmts(d - 1); s = &g->stmt; break; }
    case 3: { struct clast_block *b = new_clast_block(); if (fort) { b->body = NULL; free_clast_block(&b->stmt); s = &new_clast_assignment("j", gS(1))->stmt; break; } b->body = gstmts(d - 1); s = &b->stmt; break; }
    default: { struct clast_for *f; struct clast_expr *lb = gS(2), *ub = gS(2); mpz_set_si(z, h_coin(2) ? 1 : h_rnd(2, 5));
      f = new_clast_for(NULL, t_names[0][h_rnd(0, 1)], lb, ub, NULL); mpz_set(f->stride, z); f->body = gstmts(d - 1);
      if (!fort && !h_coin(12)) { if (h_coin(12)) { free_clast_expr(f->LB); f->LB = NULL; } if (h_coin(12)) { free_clast_expr(f->UB); f->UB = NULL; } }
      if (!fort && f->LB && f->UB && h_coin(3)) { f->parallel = h_rnd(1, 15); if (f->parallel == 8) f->parallel = 9; if (h_coin(2)) f->private_vars = sdup("i,j"); if (h_coin(2)) f->reduction_vars = sdup("+: s"); if (h_coin(3)) f->time_var_name = sdup("tt"); if (h_coin(3)) f->user_directive = sdup("my directive"); }
      s = &f->stmt; }
    }
    *nx = s; nx = &s->next;
  }
  mpz_clear(z); return first;
}
static void noise(void)
{ /* directives and timing macros; bounds hoisted into variables */
  char b[64]; const char *q;
  for (;;) { ws(); if (fort) while (*p == '\n') { p++; ws(); }
    if (*p == '#' || !strncmp(p, "IF_TIME", 7)) { while (*p && *p != '\n') p++; continue; }
    q = p; ident(b);
    if (!strcmp(b, "lbp") || !strcmp(b, "lbv") || !strcmp(b, "_lb_dist")) { want("="); sum(xlb); want(";"); havelb = 1; continue; }
    if (!strcmp(b, "ubp") || !strcmp(b, "ubv") || !strcmp(b, "_ub_dist")) { want("="); sum(xub); want(";"); haveub = 1; continue; }
    if (!strcmp(b, "polyrt_loop_dist")) { want("(_lb_dist, _ub_dist"); while (*p && *p != ';') p++; want(";"); continue; }
    p = q; return; } }
static void eol(void) { ws(); if (fort) { if (*p != '\n') bad("end of line expected"); while (*p == '\n') { p++; ws(); } } }
static void chk(struct clast_stmt *s)
{
  char b[64]; int k;
  for (; s; s = s->next) {
    havelb = haveub = 0; noise();
    if (CLAST_STMT_IS_A(s, stmt_ass)) { struct clast_assignment *a = (void *)s; ident(b); if (strcmp(b, a->LHS)) bad("assigned name"); want("="); same(a->RHS, "assignment"); if (!fort) want(";"); eol(); }
    else if (CLAST_STMT_IS_A(s, stmt_user)) { struct clast_user_stmt *u = (void *)s; struct clast_stmt *t; char nm[80]; ident(b); if (u->statement->name && !o->callable) strcpy(nm, u->statement->name); else sprintf(nm, "S%d", u->statement->number); if (strcmp(nm, b)) bad("statement name");
      want("("); for (t = u->substitutions, k = 0; t; t = t->next, k++) { struct clast_assignment *a = (void *)t; int par = 0; if (k) want(",");
        if (a->LHS) { const char *q = p; if (tok("(")) { char c[64]; const char *q2 = p; ident(c); ws(); if (*p == '=') { par = 1; p = q2; } else p = q; } ident(b); if (strcmp(b, a->LHS)) bad("name of an argument"); want("="); }
        same(a->RHS, "argument"); if (par) want(")"); }
      want(")"); if (!fort) want(";"); eol(); }
    else if (CLAST_STMT_IS_A(s, stmt_guard)) { struct clast_guard *g = (void *)s; int outer = 0; want(fort ? "IF" : "if"); ws(); if (g->n > 1) want("("), outer = 1; if (g->n < 1) bad("guard");
      for (k = 0; k < g->n; k++) { int sg; if (k) want(fort ? ".AND." : "&&"); want("("); same(g->eq[k].LHS, "left-hand side of a condition"); if (tok("==")) sg = 0; else if (tok(">=")) sg = 1; else if (tok("<=")) sg = -1; else { bad("comparison"); sg = 0; }
        if (sg != (g->eq[k].sign > 0) - (g->eq[k].sign < 0)) bad("comparison sign before"); same(g->eq[k].RHS, "right-hand side of a condition"); want(")"); }
      if (outer) want(")"); want(fort ? "THEN" : "{"); eol(); chk(g->then); noise(); want(fort ? "END IF" : "}"); eol(); }
    else if (CLAST_STMT_IS_A(s, stmt_block)) { want("{"); chk(((struct clast_block *)s)->body); noise(); want("}"); }
    else { struct clast_for *f = (void *)s; int st = 1;
      want(fort ? "DO" : "for"); if (!fort) want("(");
      if (f->LB) { ident(b); if (strcmp(b, f->iterator)) bad("iterator"); want("="); same(f->LB, "lower bound"); } want(fort ? "," : ";");
      if (f->UB) { if (!fort) { ident(b); if (strcmp(b, f->iterator)) bad("iterator in the test"); want("<="); } same(f->UB, "upper bound"); }
      if (fort) { if (tok(",")) { ws(); st = atoi(p); while (*p >= '0' && *p <= '9') p++; } eol(); }
      else { want(";"); ident(b); if (strcmp(b, f->iterator)) bad("iterator in the increment"); if (!tok("++")) { want("+="); ws(); st = atoi(p); while (*p >= '0' && *p <= '9') p++; } want(")"); want("{"); }
      if (st != mpz_get_si(f->stride)) bad("stride");
      chk(f->body); noise(); want(fort ? "END DO" : "}"); eol(); }
  }
}
int main(int argc, char **argv)
{
  int k, n; size_t len; FILE *f;
  h_init(argc, argv); t_init(); t_big = 20; mpz_init(xlb); mpz_init(xub);
  { /* the tree's remainder is the mathematical one; what does the printed operator give below zero? */
    mpz_t z, y; struct clast_expr *e; mpz_init_set_si(z, 3); mpz_init(y); state = cloog_state_malloc(); o = cloog_options_malloc(state);
    e = &new_clast_binary(clast_bin_mod, &new_clast_name("i")->expr, z)->expr;
    for (fort = 0; fort < 2; fort++) {
      o->language = fort ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C; f = open_memstream(&text, &len); clast_pprint_expr(o, f, e); fclose(f);
      for (n = 0; n < NNAMES; n++) t_env[n] = -1; p = text; sum(y); mpz_set_si(z, t_env[0]); mpz_fdiv_r_ui(z, z, 3);
      if (mpz_cmp(y, z)) printf("PROBE mod-negative-%s: i mod 3 is printed as \"%s\", which at i=-1 is %ld in the printed language; the tree's value is %ld\n", fort ? "fortran" : "c", text, mpz_get_si(y), mpz_get_si(z));
      free(text);
    }
    free_clast_expr(e); cloog_options_free(o); cloog_state_free(state); mpz_clear(y); mpz_clear(z);
  }
  while (h_more()) {
    long live = h_live; state = cloog_state_malloc(); o = cloog_options_malloc(state); fort = h_coin(3); o->language = fort ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C; o->callable = h_coin(6); npool = 0;
    if (h_coin(2)) {
      struct clast_expr *e = gS(h_rnd(0, 4)); h_d("%s expression ", fort ? "FORTRAN" : "C"); t_show(e);
      f = open_memstream(&text, &len); clast_pprint_expr(o, f, e); fclose(f);
      for (k = 0; k < 8; k++) { for (n = 0; n < NNAMES; n++) t_env[n] = h_rnd(-9, 9); p = text; same(e, "expression"); ws(); if (*p) bad("trailing text"); }
      free_clast_expr(e); free(text);
    } else {
      CloogNames *nm = cloog_names_malloc(); struct clast_root *r = new_clast_root(nm); r->stmt.next = gstmts(3); h_d("%s program", fort ? "FORTRAN" : "C");
      f = open_memstream(&text, &len); clast_pprint(f, &r->stmt, h_rnd(0, 2), o); fclose(f);
      if (r->stmt.next) for (k = 0; k < 4; k++) { for (n = 0; n < NNAMES; n++) t_env[n] = h_rnd(-9, 9); p = text; chk(r->stmt.next); noise(); ws(); if (*p) bad("trailing text"); }
      cloog_clast_free(r->stmt.next); r->stmt.next = NULL; free_clast_root(&r->stmt); cloog_names_free(nm); free(text);
      for (k = 0; k < npool; k++) cloog_statement_free(pool[k]);
    }
    cloog_options_free(o); cloog_state_free(state);
    if (h_live != live) h_fail("memory leaked (%ld blocks)", h_live - live);
  }
  return h_done();
}
