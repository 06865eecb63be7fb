PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <cloog/isl/cloog.h>
'''
SEEDS = [
 dict(id='C05-combine-alias', prop='C05', edits=[('source/int.c', '''		cloog_int_mul(tmp, m1, src1[i]);
		cloog_int_addmul(tmp, m2, src2[i]);
		cloog_int_set(dst[i], tmp);
''', '''		cloog_int_mul(dst[i], m1, src1[i]);
		cloog_int_mul(tmp, m2, src2[i]);
		cloog_int_add(dst[i], dst[i], tmp);
''')], needs='the destination vector is the second source vector', breaks='linear combination in place over the second source uses an already overwritten element',
 demo_c=PRE + '''
int main(void) {
  cloog_int_t a[2], b[2], m1, m2; int i;
  for (i = 0; i < 2; ++i) { cloog_int_init(a[i]); cloog_int_init(b[i]); }
  cloog_int_init(m1); cloog_int_init(m2);
  cloog_int_set_si(a[0], 3); cloog_int_set_si(a[1], 5); cloog_int_set_si(b[0], 7); cloog_int_set_si(b[1], 11);
  cloog_int_set_si(m1, 2); cloog_int_set_si(m2, -1);
  cloog_seq_combine(b, m1, a, m2, b, 2);
  if (mpz_get_si(b[0]) != -1 || mpz_get_si(b[1]) != -1) { printf("wrong combination\\n"); return 1; }
  return 0;
}
'''),
 dict(id='C05-gcd-sign', prop='C05', edits=[('source/int.c', '''	cloog_int_abs(*gcd, p[min]);
	for (i = 0; cloog_int_cmp_si(*gcd, 1) > 0 && i < (int) len; ++i) {
''', '''	cloog_int_abs(*gcd, p[min]);
	for (i = 0; cloog_int_cmp_si(*gcd, 1) > 0 && i < (int) len && i <= min + 16; ++i) {
''')], needs='a vector with more than 16 elements after the one of least magnitude, all but late ones multiples of it', breaks='gcd (and normalisation) ignores late elements of long vectors',
 demo_c=PRE + '''
int main(void) {
  cloog_int_t a[20], g; int i;
  cloog_int_init(g);
  for (i = 0; i < 20; ++i) { cloog_int_init(a[i]); cloog_int_set_si(a[i], 6); }
  cloog_int_set_si(a[19], 9);
  cloog_seq_gcd(a, 20, &g);
  if (mpz_get_si(g) != 3) { printf("wrong gcd\\n"); return 1; }
  return 0;
}
'''),
]
