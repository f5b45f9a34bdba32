// Native runtime for the harness interface: replays concrete inputs against the compiled code.
// usage: runner FILE   -- FILE holds cases:
//   case ENTRY NPARAM p.. NINPUT i.. NUF (f nargs a.. r)..
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <sys/wait.h>
static int64_t *in; static size_t nin, pos;
static int64_t *par; static size_t npar;
struct ufe { uint64_t f, n, a[4], r; };
static struct ufe *uf; static size_t nuf;
static void out(const char *s, const char *m, size_t n) { char b[4096]; int k = snprintf(b, sizeof b, "%s%.*s\n", s, (int)n, m); if (write(1, b, k) < 0) {} }
int64_t __sym_int(int64_t lo, int64_t hi) {
  if (pos >= nin) { out("EXHAUSTED", "", 0); _exit(6); }
  int64_t v = in[pos++];
  if (v < lo || v > hi) { out("RANGE", "", 0); _exit(6); }
  return v;
}
int64_t __sym_pick(int64_t lo, int64_t hi) { return __sym_int(lo, hi); }
void __sym_assume(_Bool c) { if (!c) { out("ASSUME", "", 0); _exit(3); } }
void __sym_assert(_Bool c, const char *m, size_t n) { if (!c) { out("VIOL ", m, n); _exit(1); } }
void __sym_fail(const char *m, size_t n) { out("VIOL ", m, n); _exit(1); }
void __sym_reach(uint64_t id) { char b[32]; int k = snprintf(b, 32, "REACH %lu\n", id); if (write(1, b, k) < 0) {} }
void __sym_observe(uint64_t v) { char b[64]; int k = snprintf(b, 64, "OBS %lu\n", v); if (write(1, b, k) < 0) {} }
uint64_t __sym_uf(uint64_t f, uint64_t a, uint64_t b) {
  uint64_t v[2] = {a, b};
  for (size_t i = 0; i < nuf; i++) if (uf[i].f == f && uf[i].n == 2 && uf[i].a[0] == a && uf[i].a[1] == b) return uf[i].r;
  uint64_t h = 0x9E3779B97F4A7C15ull * (f + 1);
  for (int i = 0; i < 2; i++) { h ^= v[i]; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; }
  return h;
}
uint64_t __sym_concretize(uint64_t v) { return v; }
void __sym_panic_ok(uint64_t v) { (void)v; }
void __sym_par(uint64_t v) { (void)v; }
int64_t __sym_param(uint64_t i) { return i < npar ? par[i] : 0; }
static uint64_t gk[256], gv[256]; static int gn;
uint64_t __sym_global(uint64_t k, uint64_t set, uint64_t v) {
  for (int i = 0; i < gn; i++) if (gk[i] == k) { if (set) { gv[i] = v; return 0; } return gv[i]; }
  if (set && gn < 256) { gk[gn] = k; gv[gn++] = v; }
  return 0;
}
static void on_sig(int s) { out(s == SIGABRT ? "PANIC" : s == SIGFPE ? "SIGFPE" : s == SIGILL || s == SIGTRAP ? "TRAP" : "SEGV", "", 0); _exit(s == SIGABRT ? 4 : 5); }
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  if (!f) return 9;
  char tag[64], ent[256];
  int nofork = argc > 2;
  long idx = 0;
  while (fscanf(f, "%63s %255s", tag, ent) == 2) {
    if (fscanf(f, "%zu", &npar) != 1) return 9;
    par = calloc(npar + 1, 8); for (size_t i = 0; i < npar; i++) if (fscanf(f, "%ld", &par[i]) != 1) return 9;
    if (fscanf(f, "%zu", &nin) != 1) return 9;
    in = calloc(nin + 1, 8); for (size_t i = 0; i < nin; i++) if (fscanf(f, "%ld", &in[i]) != 1) return 9;
    if (fscanf(f, "%zu", &nuf) != 1) return 9;
    uf = calloc(nuf + 1, sizeof *uf);
    for (size_t i = 0; i < nuf; i++) {
      if (fscanf(f, "%lu %lu", &uf[i].f, &uf[i].n) != 2) return 9;
      for (size_t k = 0; k < uf[i].n; k++) if (fscanf(f, "%lu", &uf[i].a[k]) != 1) return 9;
      if (fscanf(f, "%lu", &uf[i].r) != 1) return 9;
    }
    printf("CASE %ld\n", idx++); fflush(stdout);
    pid_t p = nofork ? 0 : fork();
    if (p == 0) {
      signal(SIGABRT, on_sig); signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); signal(SIGFPE, on_sig); signal(SIGILL, on_sig); signal(SIGTRAP, on_sig);
      alarm(60); signal(SIGALRM, SIG_DFL);
      if (!getenv("RT_STDERR")) { if (!freopen("/dev/null", "w", stderr)) {} }
      void (*fn)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, ent);
      if (!fn) { out("NOENTRY", "", 0); _exit(7); }
      fn();
      out("OK", "", 0);
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    printf("END %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); fflush(stdout);
    free(par); free(in); free(uf);
  }
  return 0;
}
