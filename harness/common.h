/* Replay harness support: deterministic random inputs, failure report, allocation tracking.
   The repository's sources are compiled unchanged; malloc & co. are redirected by -D on the command line. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
static char h_desc[65536];
static unsigned long long h_s = 0x9E3779B97F4A7C15ull;
static unsigned long long h_next(void) { h_s ^= h_s << 13; h_s ^= h_s >> 7; h_s ^= h_s << 17; return h_s; }
static int h_rnd(int lo, int hi) { return lo + (int)((h_next() >> 11) % (unsigned long long)(hi - lo + 1)); }
static int h_coin(int n) { return h_rnd(0, n - 1) == 0; }
static void h_fail(const char *fmt, ...) {
  va_list a; va_start(a, fmt); fflush(stdout); printf("\nFAILING-INPUT %s\nWRONG: ", h_desc); vprintf(fmt, a); printf("\n"); va_end(a); fflush(stdout); _exit(3); }
static void h_d(const char *fmt, ...) { va_list a; size_t n = strlen(h_desc); va_start(a, fmt); vsnprintf(h_desc + n, sizeof h_desc - n, fmt, a); va_end(a); }
static void h_reset(void) { h_desc[0] = 0; }
static int h_alarm_ok; static long h_trials;
/* h_alarm_ok: the current operation may legitimately be slow (isl), so running out of time decides nothing */
static void h_sig(int s) { char b[64]; if (s == SIGALRM && h_alarm_ok) { snprintf(b, sizeof b, "HARNESS-OK trials=%ld (slow)\n", h_trials); if (write(1, b, strlen(b))) {} _exit(0); } fflush(stdout); snprintf(b, sizeof b, "\nFAILING-INPUT "); if (write(1, b, strlen(b))) {}
  if (write(1, h_desc, strlen(h_desc))) {} snprintf(b, sizeof b, "\nWRONG: killed by signal %d\n", s); if (write(1, b, strlen(b))) {} _exit(3); }
void __asan_on_error(void) { fflush(stdout); printf("\nFAILING-INPUT %s\nWRONG: memory error (AddressSanitizer)\n", h_desc); fflush(stdout); }
const char *__asan_default_options(void) { return "detect_leaks=0:exitcode=3:allocator_may_return_null=1"; }
static double h_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double h_t0, h_secs = 15; static long h_max = 2000000000;
static void h_init(int argc, char **argv) {
  h_t0 = h_now();
  if (argc > 1) h_secs = atof(argv[1]);
  if (argc > 2) { int i; h_s ^= 0x1234567ull * (unsigned long long)atoll(argv[2]); for (i = 0; i < 20; i++) h_next(); }
  if (argc > 3) h_max = atol(argv[3]);
  signal(SIGSEGV, h_sig); signal(SIGABRT, h_sig); signal(SIGFPE, h_sig); signal(SIGBUS, h_sig); signal(SIGALRM, h_sig); }
static int h_more(void) { h_reset(); alarm(60); return h_trials++ < h_max && h_now() - h_t0 < h_secs; }
static int h_done(void) { printf("HARNESS-OK trials=%ld\n", h_trials); return 0; }
/* tracked allocations of the repository's code */
extern long h_live, h_badfree;
