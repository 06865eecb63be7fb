/* random clast expression trees, evaluation, structural text (needs clast.c included before) */
#define NNAMES 4
static const char *t_names[2][NNAMES] = {{"i", "j", "M", "N"}, {0}};
static char t_copy[NNAMES][4];
static int t_env[NNAMES];
static int t_lookup(const char *s) { int k; for (k = 0; k < NNAMES; k++) if (!strcmp(s, t_names[0][k])) return t_env[k]; h_fail("unknown name %s", s); return 0; }
static void t_init(void) { int k; for (k = 0; k < NNAMES; k++) { strcpy(t_copy[k], t_names[0][k]); t_names[1][k] = t_copy[k]; } }
static int t_big; /* one constant in t_big is larger than a machine word */
static void t_const(mpz_t z) { if (t_big && h_coin(t_big)) { mpz_set_si(z, h_rnd(-5, 5)); mpz_mul_2exp(z, z, 62 + h_rnd(0, 6)); mpz_add_ui(z, z, h_rnd(0, 3)); return; } mpz_set_si(z, h_coin(4) ? h_rnd(-100, 100) : h_rnd(-3, 3)); }
static struct clast_expr *t_rand(int depth)
{
  mpz_t z; struct clast_expr *e; mpz_init(z);
  switch (depth <= 0 ? h_rnd(0, 3) : h_rnd(0, 9)) {
  case 0: e = &new_clast_name(t_names[h_rnd(0, 1)][h_rnd(0, NNAMES - 1)])->expr; break;
  case 1: case 2: t_const(z); e = &new_clast_term(z, h_coin(2) ? NULL : &new_clast_name(t_names[h_rnd(0, 1)][h_rnd(0, NNAMES - 1)])->expr)->expr; break;
  case 3: t_const(z); e = &new_clast_term(z, NULL)->expr; break;
  case 4: t_const(z); e = &new_clast_term(z, t_rand(depth - 1))->expr; break;
  case 5: case 6: mpz_set_si(z, h_rnd(1, 5)); e = &new_clast_binary(h_rnd(0, 3), t_rand(depth - 1), z)->expr; break;
  default: { int n = h_rnd(1, 3), k; struct clast_reduction *r = new_clast_reduction(h_rnd(0, 2), n); for (k = 0; k < n; k++) r->elts[k] = t_rand(depth - 1); e = &r->expr; }
  }
  mpz_clear(z); return e;
}
static void t_eval(struct clast_expr *e, mpz_t z)
{
  switch (e->type) {
  case clast_expr_name: mpz_set_si(z, t_lookup(((struct clast_name *)e)->name)); break;
  case clast_expr_term: { struct clast_term *t = (struct clast_term *)e; if (t->var) { t_eval(t->var, z); mpz_mul(z, z, t->val); } else mpz_set(z, t->val); break; }
  case clast_expr_bin: { struct clast_binary *b = (struct clast_binary *)e; t_eval(b->LHS, z); if (mpz_sgn(b->RHS) == 0) h_fail("division by zero in an expression"); switch (b->type) {
    case clast_bin_fdiv: mpz_fdiv_q(z, z, b->RHS); break; case clast_bin_cdiv: mpz_cdiv_q(z, z, b->RHS); break; case clast_bin_div: mpz_tdiv_q(z, z, b->RHS); break; case clast_bin_mod: mpz_fdiv_r(z, z, b->RHS); break; } break; }
  case clast_expr_red: { struct clast_reduction *r = (struct clast_reduction *)e; int k; mpz_t y; mpz_init(y); mpz_set_si(z, 0); for (k = 0; k < r->n; k++) { t_eval(r->elts[k], y);
    if (r->type == clast_red_sum) mpz_add(z, z, y); else if (k == 0 || (r->type == clast_red_min ? mpz_cmp(y, z) < 0 : mpz_cmp(y, z) > 0)) mpz_set(z, y); } mpz_clear(y); break; }
  default: h_fail("unknown expression kind %d", e->type);
  }
}
static void t_show(struct clast_expr *e)
{
  if (!e) { h_d("NULL"); return; }
  switch (e->type) {
  case clast_expr_name: h_d("%s", ((struct clast_name *)e)->name); break;
  case clast_expr_term: { struct clast_term *t = (struct clast_term *)e; char *s = mpz_get_str(NULL, 10, t->val); h_d("term(%s", s); free(s); if (t->var) { h_d(","); t_show(t->var); } h_d(")"); break; }
  case clast_expr_bin: { struct clast_binary *b = (struct clast_binary *)e; char *s = mpz_get_str(NULL, 10, b->RHS); h_d("%s(", b->type == clast_bin_fdiv ? "floord" : b->type == clast_bin_cdiv ? "ceild" : b->type == clast_bin_div ? "div" : "mod"); t_show(b->LHS); h_d(",%s)", s); free(s); break; }
  case clast_expr_red: { struct clast_reduction *r = (struct clast_reduction *)e; int k; h_d("%s(", r->type == clast_red_sum ? "sum" : r->type == clast_red_min ? "min" : "max"); for (k = 0; k < r->n; k++) { if (k) h_d(","); t_show(r->elts[k]); } h_d(")"); break; }
  default: h_d("?%d", e->type);
  }
}
/* structural identity (names by content) */
static int t_same(struct clast_expr *a, struct clast_expr *b)
{
  if (!a || !b) return a == b;
  if (a->type != b->type) return 0;
  switch (a->type) {
  case clast_expr_name: return !strcmp(((struct clast_name *)a)->name, ((struct clast_name *)b)->name);
  case clast_expr_term: return !mpz_cmp(((struct clast_term *)a)->val, ((struct clast_term *)b)->val) && t_same(((struct clast_term *)a)->var, ((struct clast_term *)b)->var);
  case clast_expr_bin: { struct clast_binary *x = (void *)a, *y = (void *)b; return x->type == y->type && !mpz_cmp(x->RHS, y->RHS) && t_same(x->LHS, y->LHS); }
  default: { struct clast_reduction *x = (void *)a, *y = (void *)b; int k; if (x->type != y->type || x->n != y->n) return 0; for (k = 0; k < x->n; k++) if (!t_same(x->elts[k], y->elts[k])) return 0; return 1; }
  }
}
/* own deep copy, possibly with one small mutation */
static int t_mut;
static struct clast_expr *t_dup(struct clast_expr *e)
{
  mpz_t z; struct clast_expr *r; int m; mpz_init(z);
  if (!e) return NULL;
  m = t_mut && h_coin(3); if (m) t_mut = 0;
  switch (e->type) {
  case clast_expr_name: r = &new_clast_name(m ? t_names[0][h_rnd(0, NNAMES - 1)] : ((struct clast_name *)e)->name)->expr; break;
  case clast_expr_term: { struct clast_term *t = (void *)e; mpz_set(z, t->val); if (m && h_coin(2)) { t_const(z); r = &new_clast_term(z, t_dup(t->var))->expr; } else if (m) r = &new_clast_term(z, t->var ? NULL : &new_clast_name("i")->expr)->expr; else r = &new_clast_term(z, t_dup(t->var))->expr; break; }
  case clast_expr_bin: { struct clast_binary *b = (void *)e; mpz_set(z, b->RHS); if (m && h_coin(2)) mpz_set_si(z, h_rnd(1, 5)); r = &new_clast_binary(m ? h_rnd(0, 3) : b->type, t_dup(b->LHS), z)->expr; break; }
  default: { struct clast_reduction *x = (void *)e, *y; int k, n = x->n; if (m && h_coin(2)) n += h_coin(2) ? 1 : (n > 1 ? -1 : 0); y = new_clast_reduction(m && h_coin(3) ? h_rnd(0, 2) : x->type, n); for (k = 0; k < n; k++) y->elts[k] = k < x->n ? t_dup(x->elts[k]) : t_rand(0); r = &y->expr; }
  }
  mpz_clear(z); return r;
}
