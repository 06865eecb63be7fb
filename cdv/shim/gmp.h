/* Declarations-only stand-in for <gmp.h>, used ONLY when the verifier parses
 * /repo's sources: mpz_t is opaque and every accessor that the real header
 * implements as a macro over _mp_size is a plain function declaration, whose
 * meaning the verifier's GMP model supplies.  */
#ifndef CDV_GMP_H
#define CDV_GMP_H
#include <stddef.h>
#include <stdio.h>
typedef struct { int _cdv_opaque; } __mpz_struct;
typedef __mpz_struct mpz_t[1];
typedef __mpz_struct *mpz_ptr;
typedef const __mpz_struct *mpz_srcptr;
void mpz_init(mpz_ptr); void mpz_clear(mpz_ptr);
void mpz_init_set(mpz_ptr, mpz_srcptr); void mpz_init_set_si(mpz_ptr, long);
void mpz_set(mpz_ptr, mpz_srcptr); void mpz_set_si(mpz_ptr, long); void mpz_set_ui(mpz_ptr, unsigned long);
void mpz_abs(mpz_ptr, mpz_srcptr); void mpz_neg(mpz_ptr, mpz_srcptr); void mpz_swap(mpz_ptr, mpz_ptr);
void mpz_add(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_add_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_sub(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_sub_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_mul(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_mul_si(mpz_ptr, mpz_srcptr, long);
void mpz_addmul(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_submul(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_divexact(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_tdiv_q(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_tdiv_r(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_fdiv_q(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_fdiv_r(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_cdiv_q(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_cdiv_r(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_mod(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_gcd(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_lcm(mpz_ptr, mpz_srcptr, mpz_srcptr);
int mpz_sgn(mpz_srcptr); int mpz_cmp(mpz_srcptr, mpz_srcptr); int mpz_cmpabs(mpz_srcptr, mpz_srcptr);
int mpz_cmp_si(mpz_srcptr, long); int mpz_cmp_ui(mpz_srcptr, unsigned long);
int mpz_divisible_p(mpz_srcptr, mpz_srcptr);
int mpz_set_str(mpz_ptr, const char *, int); char *mpz_get_str(char *, int, mpz_srcptr);
long mpz_get_si(mpz_srcptr); unsigned long mpz_get_ui(mpz_srcptr); int mpz_fits_slong_p(mpz_srcptr);
size_t mpz_out_str(FILE *, int, mpz_srcptr);
void mp_get_memory_functions(void *(**)(size_t), void *(**)(void *, size_t, size_t), void (**)(void *, size_t));
#endif
