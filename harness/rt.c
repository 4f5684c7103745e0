/* Native side of the symbolic interface: inputs come from a replay file. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
static uint64_t *ins, *ps, *fs; static size_t nin, np, nf, ci;
static char fn[128];
/* the executor's entropy: the same bytes for the same seed */
static uint64_t seed = 0x2545F4914F6CDD1DULL ^ 1;
void rt_seed(uint64_t s) { seed = 0x2545F4914F6CDD1DULL ^ s; }
static long entropy(unsigned char *p, size_t n) {
  for (size_t i = 0; i < n; i++) { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; p[i] = (seed >> 32) & 0xff; }
  return (long)n;
}
static int fails, maypanic;
const char *rt_load(const char *path) {
  FILE *f = fopen(path, "r"); char line[512];
  if (!f) { perror(path); exit(4); }
  ins = malloc(8 << 20); ps = malloc(1 << 16); fs = malloc(1 << 16);
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "fn ", 3)) { sscanf(line + 3, "%127s", fn); }
    else if (!strncmp(line, "s ", 2)) rt_seed(strtoull(line + 2, 0, 10));
    else if (!strncmp(line, "p ", 2)) ps[np++] = strtoull(line + 2, 0, 10);
    else if (!strncmp(line, "f ", 2)) fs[nf++] = strtoull(line + 2, 0, 16);
    else if (!strncmp(line, "i ", 2)) ins[nin++] = strtoull(line + 2, 0, 16);
  }
  fclose(f);
  return fn;
}
static uint64_t nxt(void) { if (ci >= nin) { return 0; } return ins[ci++]; }
static double d(uint64_t u) { double x; memcpy(&x, &u, 8); return x; }
_Bool sym_bool(void) { return nxt() & 1; }
uint8_t sym_u8(void) { return (uint8_t)nxt(); }
uint64_t sym_u64(uint64_t lo, uint64_t hi) { uint64_t x = nxt(); return x < lo ? lo : x > hi ? hi : x; }
double sym_f64(double lo, double hi) { double x = d(nxt()); return x < lo ? lo : x > hi ? hi : x; }
uint64_t sym_param(uint64_t i) { if (i >= np) exit(4); return ps[i]; }
double sym_base(double x) { (void)x; return d(nxt()); }
double sym_paramf(uint64_t i) { if (i >= nf) exit(4); return d(fs[i]); }
void sym_assume(_Bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); exit(3); } }
static void bad(uint64_t id) { if (fails++ < 20) { printf("CHECKFAIL check %llu\n", (unsigned long long)id); fflush(stdout); } }
void sym_check(_Bool c, uint64_t id) { if (!c) bad(id); }
void sym_check_eq(uint64_t a, uint64_t b, uint64_t id) { if (a != b) { if (fails < 20) printf("# %llu vs %llu\n", (unsigned long long)a, (unsigned long long)b); bad(id); } }
void sym_near(double a, double b, double t, uint64_t id) { if (!(isfinite(a) && isfinite(b) && fabs(a - b) <= t)) { if (fails < 20) printf("# %.17g vs %.17g\n", a, b); bad(id); } }
void sym_observe_f64(double x) { uint64_t u; memcpy(&u, &x, 8); printf("OBS %016llx\n", (unsigned long long)u); }
void sym_observe_u64(uint64_t u) { printf("OBS %016llx\n", (unsigned long long)u); }
_Bool sym_mark(_Bool c) { return c; }
void sym_may_panic(_Bool c) { if (c) maypanic = 1; printf("MAYPANIC %d\n", c); fflush(stdout); }
void sym_reached(uint64_t id) { printf("REACHED %llu\n", (unsigned long long)id); }
uint64_t sym_concretize(uint64_t x) { return x; }
int rt_done(void) { fflush(stdout); return fails ? 1 : 0; }
#include <stdarg.h>
#include <errno.h>
#include <sys/types.h>
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; return entropy(p, n); }
/* the getrandom crate asks the kernel through syscall(2) */
long syscall(long k, ...) {
  va_list v; long a[6];
  va_start(v, k); for (int i = 0; i < 6; i++) a[i] = va_arg(v, long); va_end(v);
  if (k == 318) return entropy((unsigned char *)a[0], (size_t)a[1]);
  long r; register long r10 __asm__("r10") = a[3]; register long r8 __asm__("r8") = a[4]; register long r9 __asm__("r9") = a[5];
  __asm__ volatile("syscall" : "=a"(r) : "a"(k), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
