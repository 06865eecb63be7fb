/* End-to-end replay: random polyhedra -> CLooG AST -> interpret at every parameter value -> compare with the
   enumerated points (each exactly once, in the order the schedule asks for). */
#include "common.h"
#include <cloog/cloog.h>
#include <cloog/isl/cloog.h>
#include <isl/ctx.h>
#include <isl/val.h>
#include <isl/point.h>
#include <isl/options.h>
#define MAXS 4
#define MAXD 5
#define MAXP 200000
struct ev { int s, n, v[MAXD]; };
static struct ev *exe, *want; static int n_exe, n_want;
static const char *vn[64]; static long vv[64]; static int nv;
static long lookup(const char *s) { int k; for (k = nv - 1; k >= 0; k--) if (!strcmp(vn[k], s)) return vv[k]; h_fail("generated code uses undefined name %s", s); return 0; }
static long fdiv(long a, long b) { long q = a / b; return q * b > a ? q - 1 : q; }
static long ev(struct clast_expr *e)
{
  switch (e->type) {
  case clast_expr_name: return lookup(((struct clast_name *)e)->name);
  case clast_expr_term: { struct clast_term *t = (void *)e; long c = mpz_get_si(t->val); return t->var ? c * ev(t->var) : c; }
  case clast_expr_bin: { struct clast_binary *b = (void *)e; long x = ev(b->LHS), d = mpz_get_si(b->RHS); if (d <= 0) h_fail("divisor %ld", d);
    switch (b->type) { case clast_bin_fdiv: return fdiv(x, d); case clast_bin_cdiv: return -fdiv(-x, d); case clast_bin_div: return x / d; default: return x - d * fdiv(x, d); } }
  default: { struct clast_reduction *r = (void *)e; int k; long x = 0; for (k = 0; k < r->n; k++) { long y = ev(r->elts[k]); if (r->type == clast_red_sum) x += y; else if (k == 0 || (r->type == clast_red_min ? y < x : y > x)) x = y; } return x; }
  }
}
static long steps;
static void run(struct clast_stmt *s)
{
  for (; s; s = s->next) {
    if (++steps > 3000000) h_fail("generated code runs far too long");
    if (CLAST_STMT_IS_A(s, stmt_root)) continue;
    else if (CLAST_STMT_IS_A(s, stmt_ass)) { struct clast_assignment *a = (void *)s; vn[nv] = a->LHS; vv[nv] = ev(a->RHS); nv++; }
    else if (CLAST_STMT_IS_A(s, stmt_block)) { int k = nv; run(((struct clast_block *)s)->body); nv = k; }
    else if (CLAST_STMT_IS_A(s, stmt_guard)) { struct clast_guard *g = (void *)s; int i, ok = 1, k = nv;
      for (i = 0; i < g->n && ok; i++) { long l = ev(g->eq[i].LHS), r = ev(g->eq[i].RHS); if (g->eq[i].sign == 0) ok = l == r; else if (g->eq[i].sign > 0) ok = l >= r; else ok = l <= r; }
      if (ok) run(g->then); nv = k; }
    else if (CLAST_STMT_IS_A(s, stmt_for)) { struct clast_for *f = (void *)s; long i, lb, ub, st = mpz_get_si(f->stride); int k = nv;
      if (!f->LB || !f->UB) h_fail("loop without bound for a bounded domain");
      if (st <= 0) h_fail("stride %ld", st);
      lb = ev(f->LB); ub = ev(f->UB);
      for (i = lb; i <= ub; i += st) { vn[nv] = f->iterator; vv[nv] = i; nv++; run(f->body); nv = k; if (++steps > 3000000) h_fail("generated code runs far too long"); } }
    else if (CLAST_STMT_IS_A(s, stmt_user)) { struct clast_user_stmt *u = (void *)s; struct clast_stmt *t; struct ev *x = &exe[n_exe]; if (n_exe >= MAXP - 1) h_fail("too many statement instances executed");
      x->s = u->statement->number - 1; x->n = 0; for (t = u->substitutions; t; t = t->next) { struct clast_assignment *a = (void *)t; if (x->n >= MAXD) h_fail("too many substitutions"); x->v[x->n++] = ev(a->RHS); } n_exe++; }
    else h_fail("unknown statement");
  }
}
static int cur_s;
static isl_stat onpt(isl_point *p, void *u) { int i, d = *(int *)u; struct ev *x = &want[n_want++]; if (n_want >= MAXP - 1) h_fail("harness overflow"); x->s = cur_s; x->n = d; for (i = 0; i < d; i++) { isl_val *v = isl_point_get_coordinate_val(p, isl_dim_set, i); x->v[i] = isl_val_get_num_si(v); isl_val_free(v); } isl_point_free(p); return isl_stat_ok; }
static int cmp(const void *a, const void *b) { const struct ev *x = a, *y = b; int i; if (x->s != y->s) return x->s - y->s; for (i = 0; i < x->n && i < y->n; i++) if (x->v[i] != y->v[i]) return x->v[i] < y->v[i] ? -1 : 1; return x->n - y->n; }
static char dom[MAXS][2000], sch[MAXS][600]; static int dims[MAXS], sc[MAXS][4][MAXD + 2];
static const char *it[MAXD] = {"a", "b", "c", "d", "e"};
static int fixd, fixv, np, ns, nscat, hasmod, allowmod, ph, smod, unions;
static void aff(char *o, int d, int k, int c) { int i; strcpy(o, "0"); for (i = 0; i < d; i++) if (h_coin(2)) sprintf(o + strlen(o), "%+d%s", h_rnd(1, k) * (h_coin(2) ? 1 : -1), it[i]); if (np && h_coin(3)) sprintf(o + strlen(o), "%+dM", h_coin(2) ? 1 : -1); sprintf(o + strlen(o), "%+d", h_rnd(-c, c)); }
static void mkset(char *o, int d, int lim)
{
  int i, j, m, pieces = h_coin(4) && !allowmod && !smod ? h_rnd(2, 4) : 1; char t[300], t2[300];
  sprintf(o, "%s{ ", np ? "[M] -> " : "");
  for (j = 0; j < pieces; j++) {
    if (j) { strcat(o, "; "); unions = 1; }
    strcat(o, "["); for (i = 0; i < d; i++) sprintf(o + strlen(o), "%s%s", i ? "," : "", it[i]); strcat(o, "] : ");
    for (i = 0; i < d; i++) { int lo = h_rnd(-3, 2), w = h_rnd(0, lim); if (i == fixd) { sprintf(o + strlen(o), "%s%s = %d", i ? " and " : "", it[i], fixv); continue; } if (np && ns == 1 && h_coin(4)) sprintf(o + strlen(o), "%s%d <= %s <= M%+d", i ? " and " : "", lo, it[i], lo + w / 2); else sprintf(o + strlen(o), "%s%d <= %s <= %d", i ? " and " : "", lo, it[i], lo + w);
      if (np && h_coin(3)) sprintf(o + strlen(o), " and %s <= %dM%+d", it[i], h_rnd(1, 2), h_rnd(-2, 2)); if (np && h_coin(6)) sprintf(o + strlen(o), " and %s >= M%+d", it[i], h_rnd(-4, 0)); }
    if (smod) for (i = 0; i < d; i++) if (h_coin(2)) { int q = h_rnd(2, 4), e = h_rnd(0, 2); char sy[40] = ""; if (e == 1 && i) sprintf(sy, "%+d%s", h_coin(2) ? 1 : -1, it[h_rnd(0, i - 1)]); if (e == 2 && np) sprintf(sy, "%+dM", h_coin(2) ? 1 : -1); sprintf(o + strlen(o), " and (%s%s%+d) mod %d = 0", it[i], sy, h_rnd(0, q - 1), q); }
    m = h_rnd(0, 2);
    for (i = 0; i < m; i++) {
      aff(t, d, 3, 6);
      switch (h_rnd(allowmod ? 2 : 4, 7) == 5 && !allowmod ? 7 : allowmod ? h_rnd(0, 7) : (int[]){0, 1, 2, 4, 7, 0, 6, 7}[h_rnd(0, 7)]) {
      case 0: case 1: case 2: sprintf(o + strlen(o), " and %s >= 0", t); break;
      case 3: hasmod = 1; sprintf(o + strlen(o), " and (%s) mod %d = %d", t, h_rnd(2, 4), h_rnd(0, 1)); break;
      case 4: aff(t2, d, 2, 3); sprintf(o + strlen(o), " and %s >= 0 and %s >= 0", t, t2); break;
      case 5: { int q = (hasmod = 1, 0);
        q = h_rnd(2, 6); aff(t2, d, 4, 5); sprintf(o + strlen(o), " and exists (z : %d*z %s %s and %d*z >= %s-%d)", q, h_coin(2) ? "<=" : "=", t2, q, t2, h_rnd(0, q - 1)); break; }
      case 6: if (d > 1) { hasmod = 1; int a = h_rnd(0, d - 1), b = (a + 1) % d; sprintf(o + strlen(o), " and %d%s = %s%+d", h_rnd(1, 3), it[a], it[b], h_rnd(-1, 1)); } break;
      default: sprintf(o + strlen(o), " and %s <= %d", t, h_rnd(0, 9)); }
    }
  }
  strcat(o, " }");
}
static int stamp(struct ev *x, int k) { int *c = sc[x->s][k], i, r = c[MAXD]; for (i = 0; i < dims[x->s]; i++) r += c[i] * x->v[i]; return r; }
int main(int argc, char **argv)
{
  h_init(argc, argv); exe = malloc(sizeof *exe * MAXP); want = malloc(sizeof *want * MAXP);
  while (h_more()) {
    CloogState *state; CloogOptions *o; CloogUnionDomain *ud; CloogInput *in; struct clast_stmt *root; int i, k, p; isl_ctx *ctx = isl_ctx_alloc(); isl_set *sets[MAXS]; CloogDomain *context; int plo = 0, phi = 0; char buf[4000];
    long live = h_live;
    isl_options_set_on_error(ctx, ISL_ON_ERROR_ABORT);
    hasmod = unions = 0; allowmod = 0; smod = h_coin(4); np = h_coin(2); ns = smod || allowmod ? 1 : h_rnd(1, 4); fixd = ns > 1 && h_coin(5) ? h_rnd(0, 1) : -1; fixv = h_rnd(-2, 2); nscat = h_coin(2) ? 0 : h_rnd(1, 4); ph = h_rnd(0, 1);
    state = cloog_isl_state_malloc(ctx); o = cloog_options_malloc(state); o->quiet = 1;
    if (np) { plo = h_rnd(-1, 2); phi = plo + h_rnd(0, 6); }
    o->strides = h_coin(2); o->esp = !h_coin(4); if (h_coin(5)) o->fsp = h_rnd(1, 3); o->sh = h_coin(5); o->block = h_coin(5); o->noblocks = h_coin(2); o->noscalars = h_coin(5); o->save_domains = h_coin(4); o->backtrack = h_coin(8);
    if (!smod && h_coin(8)) o->l = h_rnd(1, 2); if (ns == 1 && !smod && h_coin(5)) o->first_unroll = h_rnd(1, 2); if (!smod && h_coin(4)) { o->f = h_rnd(-1, 3); if (!o->f) o->f = 1; }
    h_d("options l=%d f=%d strides=%d sh=%d unroll=%d esp=%d fsp=%d otl=%d block=%d noblocks=%d noscalars=%d backtrack=%d save_domains=%d nosimplify=%d; M in [%d,%d]", o->l, o->f, o->strides, o->sh, o->first_unroll, o->esp, o->fsp, o->otl, o->block, o->noblocks, o->noscalars, o->backtrack, o->save_domains, o->nosimplify, plo, phi);
    ud = cloog_union_domain_alloc(np);
    if (np) cloog_union_domain_set_name(ud, CLOOG_PARAM, 0, "M");
    for (i = 0; i < ns; i++) {
      int d = dims[i] = (i && h_coin(2)) ? dims[0] : h_rnd(1, 3), e; CloogScattering *cs = NULL;
      if (i && h_coin(4)) strcpy(dom[i], dom[i - 1]), dims[i] = d = dims[i - 1]; else mkset(dom[i], d, d == 1 ? 9 : d == 2 ? 6 : 3);
      sets[i] = isl_set_read_from_str(ctx, dom[i]); h_d("; S%d %s", i + 1, dom[i]);
      if (nscat) {
        sprintf(buf, "%s{ [", np ? "[M] -> " : ""); for (k = 0; k < d; k++) sprintf(buf + strlen(buf), "%s%s", k ? "," : "", it[k]); strcat(buf, "] -> [");
        for (k = 0; k < nscat; k++) { int *c = sc[i][k]; memset(c, 0, sizeof sc[i][k]); if (k % 2 == ph || k / 2 >= d) c[MAXD] = h_rnd(0, 2); else { c[k / 2] = 1; if (h_coin(3)) c[MAXD] = h_rnd(-2, 2); }
          if (k) strcat(buf, ","); strcat(buf, "0"); for (e = 0; e < d; e++) if (c[e]) sprintf(buf + strlen(buf), "%+d%s", c[e], it[e]); sprintf(buf + strlen(buf), "%+d", c[MAXD]); }
        strcat(buf, "] }"); h_d(" schedule %s", buf); cs = cloog_scattering_from_isl_map(isl_map_read_from_str(ctx, buf)); }
      sprintf(buf, "S%d", i + 1);
      ud = cloog_union_domain_add_domain(ud, buf, cloog_domain_from_isl_set(isl_set_copy(sets[i])), cs, NULL);
    }
    if (np && h_coin(4)) { sprintf(buf, "[M] -> { : %d <= M }", plo); h_d(" (context without upper bound)"); } else if (np) sprintf(buf, "[M] -> { : %d <= M <= %d }", plo, phi); else strcpy(buf, "{ : }");
    context = cloog_domain_from_isl_set(isl_set_read_from_str(ctx, buf)); /* parameter set */
    in = cloog_input_alloc(context, ud);
    root = cloog_clast_create_from_input(in, o);
    if (getenv("H_PRINT")) { FILE *f = fopen(getenv("H_PRINT"), "w"); clast_pprint(f, root, 0, o); fclose(f); }
    for (p = plo; p <= phi; p++) {
      n_exe = n_want = nv = 0; steps = 0; if (np) { vn[0] = "M"; vv[0] = p; nv = 1; }
      run(root);
      for (i = 0; i < ns; i++) { isl_set *s = isl_set_copy(sets[i]); if (np) s = isl_set_fix_si(s, isl_dim_param, 0, p); if (np) s = isl_set_project_out(s, isl_dim_param, 0, 1); cur_s = i; isl_set_foreach_point(s, onpt, &dims[i]); isl_set_free(s); }
      /* order: upstream reorders pieces that coincide at single parameter values, hence !np; not promised at levels left unseparated (-f/-l) nor, here, for domains with holes */
      if (!np && !hasmod && (!unions || ns == 1) && o->noblocks && o->f == 1 && o->l == -1) for (i = 1; i < n_exe; i++) { struct ev *x = &exe[i - 1], *y = &exe[i]; if (x->s >= ns || y->s >= ns || x->s < 0 || y->s < 0) h_fail("unknown statement executed");
        for (k = 0; k < nscat; k++) { int a = stamp(x, k), b = stamp(y, k); if (a > b) h_fail("M=%d: instance %d of S%d executed after a later instance of S%d in schedule order", p, i, y->s + 1, x->s + 1); if (a < b) break; } }
      if (!np && !nscat && !hasmod && (!unions || ns == 1) && o->f == 1 && o->l == -1) { int last[MAXS]; for (i = 0; i < ns; i++) last[i] = -1; for (i = 0; i < n_exe; i++) { int s = exe[i].s; if (last[s] >= 0 && cmp(&exe[last[s]], &exe[i]) >= 0) h_fail("M=%d: instances of S%d not in lexicographic order", p, s + 1); last[s] = i; } }
      for (i = 0; i < n_exe; i++) if (exe[i].n != dims[exe[i].s]) h_fail("S%d called with %d arguments, expected %d", exe[i].s + 1, exe[i].n, dims[exe[i].s]);
      qsort(exe, n_exe, sizeof *exe, cmp); qsort(want, n_want, sizeof *want, cmp);
      for (i = 0; i < n_exe || i < n_want; i++) {
        int c = i >= n_exe ? 1 : i >= n_want ? -1 : cmp(&exe[i], &want[i]);
        if (c) { struct ev *x = c < 0 ? &exe[i] : &want[i]; char b2[200] = ""; for (k = 0; k < x->n; k++) sprintf(b2 + strlen(b2), "%s%d", k ? "," : "", x->v[k]); h_fail("M=%d: S%d(%s) is %s", p, x->s + 1, b2, c > 0 ? "not executed" : "executed although it should not be (or twice)"); }
      }
    }
    cloog_clast_free(root);
    cloog_options_free(o); cloog_state_free(state);
    for (i = 0; i < ns; i++) isl_set_free(sets[i]);
    if (h_live != live) h_fail("memory leaked (%ld blocks)", h_live - live);
    isl_ctx_free(ctx);
  }
  return h_done();
}
