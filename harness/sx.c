/* Native runtime of the harness interface: values come from the file named
   by SX_IN, in the order the engine recorded them. */
#include <math.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>

struct item { char kind[12]; char tag[120]; uint64_t v; };
static struct item *items;
static size_t n_items, pos;
static struct { char k[64]; int64_t v; } params[64];
static int n_params, loaded;

static char expecting[120], tol_label[120];
static void (*after)(void *);
static void *after_data;
static void on_alarm(int sig) { (void)sig; write(1, "SX: END\n", 8); _exit(0); }
static double tol;
/* panics abort: expected ones end the run well */
static void on_abort(int sig) {
  (void)sig;
  fflush(stdout);
  if (expecting[0] && after) {
    void (*f)(void *) = after;
    after = 0;
    expecting[0] = 0;
    /* the handler runs inside the one for SIGABRT; what panicked may hold a
       lock: then nothing is left to observe */
    sigset_t s;
    sigemptyset(&s);
    sigaddset(&s, SIGABRT);
    sigprocmask(SIG_UNBLOCK, &s, 0);
    signal(SIGALRM, on_alarm);
    alarm(5);
    f(after_data);
    fflush(stdout);
    write(1, "SX: END\n", 8);
    _exit(0);
  }
  if (expecting[0]) { write(1, "SX: END\n", 8); _exit(0); }
  write(1, "SX: FAIL panic\n", 15);
  _exit(10);
}
static void load(void) {
  if (loaded) return;
  loaded = 1;
  signal(SIGABRT, on_abort);
  const char *f = getenv("SX_IN");
  if (!f) return;
  FILE *fp = fopen(f, "r");
  if (!fp) { fprintf(stderr, "cannot read %s\n", f); exit(78); }
  char line[512];
  size_t cap = 0;
  while (fgets(line, sizeof line, fp)) {
    if (line[0] == '#' || line[0] == '\n') continue;
    if (!strncmp(line, "param ", 6)) {
      sscanf(line + 6, "%63s %ld", params[n_params].k, &params[n_params].v);
      n_params++;
      continue;
    }
    if (!strncmp(line, "tol ", 4)) {
      unsigned long b = 0;
      sscanf(line + 4, "%lx %119s", &b, tol_label);
      memcpy(&tol, &b, 8);
      continue;
    }
    if (n_items == cap) { cap = cap ? cap * 2 : 64; items = realloc(items, cap * sizeof *items); }
    unsigned long v;
    if (sscanf(line, "%11s %119s %lx", items[n_items].kind, items[n_items].tag, &v) != 3) { fprintf(stderr, "bad line %s", line); exit(78); }
    items[n_items++].v = v;
  }
  fclose(fp);
}
static uint64_t take(const char *kind, const char *tag, size_t n) {
  load();
  if (pos >= n_items) { fprintf(stderr, "SX: no value left for %.*s\n", (int)n, tag); exit(76); }
  struct item *i = &items[pos++];
  if (strcmp(i->kind, kind) || strlen(i->tag) != n || memcmp(i->tag, tag, n)) {
    fprintf(stderr, "SX: asked for %s %.*s, have %s %s\n", kind, (int)n, tag, i->kind, i->tag);
    exit(76);
  }
  return i->v;
}
double sx_f64(const char *t, size_t n) { uint64_t v = take("f64", t, n); double d; memcpy(&d, &v, 8); return d; }
float sx_f32(const char *t, size_t n) { uint32_t v = (uint32_t)take("f32", t, n); float d; memcpy(&d, &v, 4); return d; }
uint64_t sx_int(const char *t, size_t n, uint64_t lo, uint64_t hi) {
  uint64_t v = take("int", t, n);
  if (v < lo || v > hi) exit(77);
  return v;
}
uint64_t sx_choose(const char *t, size_t n, uint64_t k) { uint64_t v = take("choose", t, n); return v < k ? v : 0; }
int64_t sx_param(const char *t, size_t n, int64_t d) {
  load();
  for (int i = 0; i < n_params; i++)
    if (strlen(params[i].k) == n && !memcmp(params[i].k, t, n)) return params[i].v;
  return d;
}
void sx_shard(uint64_t k) { (void)k; }
void sx_assume(_Bool c) { if (!c) { printf("SX: assumption not met\n"); fflush(stdout); _Exit(77); } }
_Bool sx_fork(_Bool c) { return c; }
static void fail(const char *l, size_t n) { printf("SX: FAIL %.*s\n", (int)n, l); fflush(stdout); _Exit(10); }

void sx_assert(_Bool c, const char *l, size_t n) { if (!c) fail(l, n); }
void sx_assert_bits(double a, double b, const char *l, size_t n) {
  uint64_t x, y;
  memcpy(&x, &a, 8); memcpy(&y, &b, 8);
  if (x != y && !(a != a && b != b)) { printf("SX: %a %a\n", a, b); fail(l, n); }
  printf("OBS %.*s %lx\n", (int)n, l, (uint64_t)x);
}
void sx_assert_bits32(float a, float b, const char *l, size_t n) {
  uint32_t x, y;
  memcpy(&x, &a, 4); memcpy(&y, &b, 4);
  if (x != y && !(a != a && b != b)) { printf("SX: %a %a\n", a, b); fail(l, n); }
  printf("OBS %.*s %lx\n", (int)n, l, (uint64_t)x);
}
/* allowed difference: a counterexample names its own */
static double slack(const char *l, size_t n, double d) {
  return strlen(tol_label) == n && !memcmp(tol_label, l, n) ? tol : d;
}
void sx_assert_real(double a, double b, const char *l, size_t n) {
  uint64_t x;
  memcpy(&x, &a, 8);
  printf("OBS %.*s %lx\n", (int)n, l, x);
  if (!isfinite(b)) return;
  double m = fmax(fabs(a), fabs(b));
  if (!(fabs(a - b) <= slack(l, n, 1e-7 * (1.0 + m)))) { printf("SX: %.17g expected %.17g\n", a, b); fail(l, n); }
}
void sx_assert_real32(float a, float b, const char *l, size_t n) {
  uint32_t x;
  memcpy(&x, &a, 4);
  printf("OBS %.*s %x\n", (int)n, l, x);
  if (!isfinite(b)) return;
  double m = fmax(fabs(a), fabs(b));
  if (!(fabs((double)a - b) <= slack(l, n, 4e-3 * (1.0 + m)))) { printf("SX: %.9g expected %.9g\n", a, b); fail(l, n); }
}
void sx_observe(const char *t, size_t n, double v) { uint64_t b; memcpy(&b, &v, 8); printf("OBS %.*s %lx\n", (int)n, t, b); }
void sx_observe_u(const char *t, size_t n, uint64_t v) { printf("OBS %.*s %lx\n", (int)n, t, v); }
void sx_expect_panic(const char *l, size_t n) { load(); snprintf(expecting, sizeof expecting, "%.*s", (int)n, l); }
void sx_after_panic(void (*f)(void *), void *d) { after = f; after_data = d; }
void sx_reach(const char *l, size_t n) { (void)l; (void)n; }
static uint64_t mix(uint64_t h) {
  h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9ull;
  h = (h ^ (h >> 27)) * 0x94d049bb133111ebull;
  return h ^ (h >> 31);
}
static uint64_t ufh(uint64_t id, uint64_t a, uint64_t b) {
  uint64_t h = 0xcbf29ce484222325ull ^ (id * 0x9E3779B97F4A7C15ull);
  h = mix(h ^ a);
  return mix(h ^ b);
}
uint64_t sx_uf(uint32_t id, uint64_t a, uint64_t b) { return ufh(id, a, b); }
double sx_uff(uint32_t id, double a, double b) {
  uint64_t x, y;
  memcpy(&x, &a, 8); memcpy(&y, &b, 8);
  return (double)((ufh(id + 1000, x, y) >> 12) % 4096) / 1024.0 - 2.0;
}
/* heap accounting is the engine's; natively memory errors are for valgrind */
int64_t sx_live(void) { return 0; }
int64_t sx_bytes(void) { return 0; }
void sx_stop(void) { printf("SX: END\n"); fflush(stdout); _Exit(0); }
static pthread_t th[64];
static int nth;
uint64_t sx_spawn(void *(*f)(void *), void *a) { pthread_create(&th[nth], 0, f, a); return ++nth; }
void sx_join(uint64_t t) { pthread_join(th[t - 1], 0); }
void sx_finish(void) {
  if (expecting[0]) fail(expecting, strlen(expecting));
  printf("SX: END\n");
  fflush(stdout);
}
