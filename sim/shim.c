/* Ambient sources a process reads from the system, decided by the simulator:
   clocks (start, rate, jumps), randomness, and the locale's number format. */
#define _GNU_SOURCE
#include <locale.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>

static uint64_t s;
static double now = -1;
static int mode;
static long reads;

static uint64_t rnd(void) {
  s ^= s << 13; s ^= s >> 7; s ^= s << 17;
  return s;
}

static void init(void) {
  if (s) return;
  const char *e = getenv("SIM_RANDOM");
  s = e ? strtoull(e, 0, 10) * 2654435761u + 88172645463325252ull : 88172645463325252ull;
  for (int i = 0; i < 8; i++) rnd();
  e = getenv("SIM_EPOCH");
  now = e ? atof(e) : 1.6e9;
  e = getenv("SIM_CLOCK");
  mode = e ? atoi(e) : 0;
}

/* 0: one microsecond a reading, 1: stopped, 2: jumps forward, 3: jumps back and forth */
static double tick(void) {
  init();
  reads++;
  if (mode == 0) now += 1e-6;
  else if (mode == 2) now += (double)(rnd() % 86400);
  else if (mode == 3) now += (double)(int64_t)(rnd() % 172800) - 86000;
  if (now < 1) now = 1;
  return now;
}

int clock_gettime(clockid_t c, struct timespec *t) {
  (void)c;
  double n = tick();
  t->tv_sec = (time_t)n;
  t->tv_nsec = (long)((n - (double)t->tv_sec) * 1e9);
  return 0;
}

int gettimeofday(struct timeval *restrict t, void *restrict z) {
  (void)z;
  double n = tick();
  t->tv_sec = (time_t)n;
  t->tv_usec = (long)((n - (double)t->tv_sec) * 1e6);
  return 0;
}

time_t time(time_t *p) {
  time_t n = (time_t)tick();
  if (p) *p = n;
  return n;
}

ssize_t getrandom(void *b, size_t n, unsigned int f) {
  (void)f;
  init();
  for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)(rnd() >> 11);
  return (ssize_t)n;
}

int getentropy(void *b, size_t n) {
  getrandom(b, n, 0);
  return 0;
}

struct lconv *localeconv(void) {
  static struct lconv l;
  const char *e = getenv("SIM_NUMBERS");
  l.decimal_point = e ? "," : ".";
  l.thousands_sep = e ? "." : "";
  l.grouping = e ? "\003" : "";
  l.int_curr_symbol = l.currency_symbol = l.mon_decimal_point = l.mon_thousands_sep = l.mon_grouping = "";
  l.positive_sign = l.negative_sign = "";
  l.int_frac_digits = l.frac_digits = l.p_cs_precedes = l.p_sep_by_space = 127;
  l.n_cs_precedes = l.n_sep_by_space = l.p_sign_posn = l.n_sign_posn = 127;
  return &l;
}
