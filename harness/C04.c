/* oracle for expression copy / comparison */
#include "common.h"
#include "alloc.h"
#include "../source/clast.c"
#undef malloc
#undef free
#include "tree.h"
int main(int argc, char **argv)
{
  mpz_t x, y; h_init(argc, argv); t_init(); mpz_init(x); mpz_init(y);
  while (h_more()) {
    long live = h_live; struct clast_expr *a, *b, *a0, *b0; int r, k, n, same = 1, gt = 1;
    a = t_rand(h_rnd(0, 3)); t_mut = 0; a0 = t_dup(a);
    if (h_coin(3)) b = t_rand(h_rnd(0, 2)); else { t_mut = h_coin(3) ? 0 : 1; b = t_dup(a); }
    t_mut = 0; b0 = t_dup(b);
    if (h_coin(40)) { free_clast_expr(b); free_clast_expr(b0); b = b0 = NULL; }
    h_d("a="); t_show(a); h_d(" b="); t_show(b);
    r = clast_expr_equal(a, b);
    for (k = 0; k < 12 && b; k++) { for (n = 0; n < NNAMES; n++) t_env[n] = k == 0 ? 0 : h_rnd(-9, 9); t_eval(a, x); t_eval(b, y); if (mpz_cmp(x, y)) same = 0; if (mpz_cmp(x, y) <= 0) gt = 0; }
    if (!b) same = gt = 0;
    if (r && !same) h_fail("clast_expr_equal says equal, values differ");
    if (b && clast_expr_equal(b, a) && !same) h_fail("clast_expr_equal(b,a) says equal, values differ");
    r = b && clast_expr_is_bigger_constant(a, b);
    if (r && !gt) h_fail("clast_expr_is_bigger_constant says bigger, it is not");
    { struct clast_expr *c = clast_expr_copy(a); if (!t_same(c, a)) { h_d(" copy="); t_show(c); h_fail("copy differs"); }
      h_d(" (after copy)"); if (h_coin(2)) { free_clast_expr(c); } else { struct clast_expr *t = a; a = c; free_clast_expr(t); } }
    if (!t_same(a, a0)) h_fail("first operand changed"); if (!t_same(b, b0)) h_fail("second operand changed");
    free_clast_expr(a); free_clast_expr(b); free_clast_expr(a0); free_clast_expr(b0);
    if (h_live != live) h_fail("memory leaked (%ld blocks)", h_live - live);
  }
  return h_done();
}
