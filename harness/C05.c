/* oracle for the integer vector routines */
#include "common.h"
#include "alloc.h"
#include "../source/int.c"
#undef malloc
#undef free
#define MX 80
static void rv(mpz_t z) { switch (h_rnd(0, 5)) { case 0: mpz_set_si(z, 0); break; case 1: case 2: mpz_set_si(z, h_rnd(-3, 3)); break; case 3: mpz_set_si(z, h_rnd(-60, 60)); break;
  case 4: mpz_set_si(z, h_rnd(-6, 6)); mpz_mul_2exp(z, z, h_rnd(0, 70)); break; default: mpz_set_si(z, h_rnd(-1000000, 1000000)); mpz_mul_si(z, z, h_rnd(-1000000000, 1000000000)); } }
static void dv(const char *n, mpz_t *v, int len) { int i; h_d(" %s=[", n); for (i = 0; i < len; i++) { char *s = mpz_get_str(NULL, 10, v[i]); h_d("%s%s", i ? " " : "", s); free(s); } h_d("]"); }
int main(int argc, char **argv)
{
  int i; mpz_t A[MX], B[MX], C[MX], A0[MX], B0[MX], C0[MX], x, y, g, t, u;
  h_init(argc, argv);
  for (i = 0; i < MX; i++) { mpz_init(A[i]); mpz_init(B[i]); mpz_init(C[i]); mpz_init(A0[i]); mpz_init(B0[i]); mpz_init(C0[i]); }
  mpz_init(x); mpz_init(y); mpz_init(g); mpz_init(t); mpz_init(u);
  while (h_more()) {
    int n = h_coin(6) ? h_rnd(7, 70) : h_rnd(0, 6), f = h_rnd(0, 9), r, big = h_coin(2); long live = h_live;
    mpz_t *D = C, *P = A, *Q = B;
    for (i = 0; i < MX; i++) { if (big) { rv(A[i]); rv(B[i]); rv(C[i]); } else { mpz_set_si(A[i], h_rnd(-3, 3)); mpz_set_si(B[i], h_rnd(-3, 3)); rv(C[i]); } }
    if (f == 2 || f == 9) if (h_coin(2)) for (i = 0; i < MX; i++) mpz_neg(B[i], A[i]);
    if (h_coin(2)) for (i = 0; i < MX; i++) if (h_coin(2)) mpz_set_si(A[i], 0);
    if (h_coin(3)) { int m = h_rnd(2, 60), q = h_rnd(0, MX - 1); for (i = 0; i < MX; i++) { mpz_mul_si(A[i], A[i], m); mpz_mul_si(B[i], B[i], m); } if (h_coin(2) && n) q = h_coin(2) ? n - 1 : h_rnd(0, n - 1); mpz_set_si(A[q], h_rnd(-60, 60)); }
    rv(x); rv(y);
    for (i = 0; i < MX; i++) { mpz_set(A0[i], A[i]); mpz_set(B0[i], B[i]); mpz_set(C0[i], C[i]); }
    h_d("fn=%d len=%d", f, n); dv("a", A, n); dv("b", B, n);
    switch (f) {
    case 0: h_d(" cloog_seq_neg"); if (h_coin(2)) { D = A; h_d(" dst=src"); } cloog_seq_neg(D, P, n);
      for (i = 0; i < n; i++) { mpz_neg(t, A0[i]); if (mpz_cmp(t, D[i])) h_fail("element %d is not the negation", i); } break;
    case 1: h_d(" cloog_seq_cpy"); cloog_seq_cpy(D, P, n); for (i = 0; i < n; i++) if (mpz_cmp(D[i], A0[i])) h_fail("element %d not copied", i); break;
    case 2: h_d(" cloog_seq_is_neg"); if (n && h_coin(2)) { rv(B[h_rnd(0, n - 1)]); for (i = 0; i < MX; i++) mpz_set(B0[i], B[i]); dv("b'", B, n); }
      r = cloog_seq_is_neg(A, B, n); { int e = 1; for (i = 0; i < n; i++) { mpz_neg(t, B[i]); if (mpz_cmp(t, A[i])) e = 0; } if (!!r != e) h_fail("returned %d, expected %d", r, e); } D = NULL; break;
    case 3: { int al = h_rnd(0, 3), sm = h_coin(2); h_d(" cloog_seq_combine alias=%d same-multiplier-object=%d", al, sm); if (al & 1) D = A; if (al == 2) D = B; if (al == 3) { P = A; Q = A; D = A; }
      { char *s1 = mpz_get_str(NULL, 10, x), *s2 = mpz_get_str(NULL, 10, y); h_d(" m1=%s m2=%s", s1, s2); free(s1); free(s2); }
      cloog_seq_combine(D, x, P, sm ? x : y, Q, n);
      for (i = 0; i < n; i++) { mpz_mul(t, x, P == A ? A0[i] : B0[i]); mpz_mul(u, sm ? x : y, Q == A ? A0[i] : B0[i]); mpz_add(t, t, u); if (mpz_cmp(t, D[i])) h_fail("element %d is not the linear combination", i); } break; }
    case 4: h_d(" cloog_seq_scale_down"); if (mpz_sgn(x) == 0) mpz_set_si(x, -3); for (i = 0; i < n; i++) { mpz_mul(A[i], A[i], x); mpz_set(t, A[i]); } if (h_coin(2)) D = A;
      cloog_seq_scale_down(D, A, x, n); for (i = 0; i < n; i++) if (mpz_cmp(D[i], A0[i])) h_fail("element %d is not the exact quotient", i); if (D != A) for (i = 0; i < n; i++) { mpz_mul(t, A0[i], x); if (mpz_cmp(A[i], t)) h_fail("source changed"); mpz_set(A[i], A0[i]); } break;
    case 5: h_d(" cloog_seq_gcd"); cloog_seq_gcd(A, n, &g); mpz_set_si(t, 0); for (i = 0; i < n; i++) mpz_gcd(t, t, A0[i]); if (mpz_cmp(t, g)) h_fail("not the gcd"); D = NULL; break;
    case 6: h_d(" cloog_seq_normalize"); if (h_coin(2)) for (i = 0; i < n; i++) { mpz_mul_si(A[i], A[i], 6); mpz_set(A0[i], A[i]); } cloog_seq_normalize(A, n); mpz_set_si(t, 0); for (i = 0; i < n; i++) mpz_gcd(t, t, A0[i]);
      for (i = 0; i < n; i++) { if (mpz_sgn(t)) { mpz_mul(u, A[i], t); if (mpz_cmp(u, A0[i])) h_fail("element %d is not divided by the gcd", i); } else if (mpz_sgn(A[i])) h_fail("zero vector changed"); } D = A; break;
    case 7: h_d(" cloog_seq_first_non_zero"); r = cloog_seq_first_non_zero(A, n); { int e = -1; for (i = 0; i < n; i++) if (mpz_sgn(A0[i])) { e = i; break; } if (r != e) h_fail("returned %d, expected %d", r, e); } D = NULL; break;
    case 8: { int e = -1; h_d(" cloog_seq_abs_min_non_zero"); r = cloog_seq_abs_min_non_zero(A, n); for (i = 0; i < n; i++) if (mpz_sgn(A0[i]) && (e < 0 || mpz_cmpabs(A0[i], A0[e]) < 0)) e = i;
      if ((e < 0) != (r < 0) || (e >= 0 && (r >= n || mpz_sgn(A0[r]) == 0 || mpz_cmpabs(A0[r], A0[e])))) h_fail("returned %d, e.g. %d expected", r, e); D = NULL; break; }
    case 9: { struct cloog_vec *v; h_d(" cloog_vec_alloc/free"); v = cloog_vec_alloc(n); if (!v || v->size != (unsigned)n) h_fail("size"); for (i = 0; i < n; i++) mpz_set_si(v->p[i], i); cloog_vec_free(v); D = NULL; break; }
    }
    for (i = 0; i < MX; i++) {
      int in = i < n;
      if (!(D == A && in) && mpz_cmp(A[i], A0[i])) h_fail("source a[%d] changed", i);
      if (!(D == B && in) && mpz_cmp(B[i], B0[i])) h_fail("source b[%d] changed", i);
      if (!(D == C && in) && mpz_cmp(C[i], C0[i])) h_fail("element %d outside the range changed", i);
    }
    if (h_live != live) h_fail("memory leaked (%ld blocks)", h_live - live);
  }
  return h_done();
}
