// Native run time of the harness API: replays a recorded counterexample against the real, natively compiled code.
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
static FILE *in; 
static void openIn(void) { if (!in) { const char *p = getenv("SYM_REPLAY"); if (!p || !(in = fopen(p, "r"))) { fprintf(stderr, "symrt: no SYM_REPLAY file\n"); exit(90); } } }
uint64_t __sym_int(const char *name, size_t len, uint32_t bits) {
  char line[4096]; openIn();
  while (fgets(line, sizeof line, in)) {
    if (line[0] == '#' || !strncmp(line, "sched ", 6)) continue;
    char *sp = strrchr(line, ' '); if (!sp) continue;
    if ((size_t)(sp - line) != len || strncmp(line, name, len)) { fprintf(stderr, "symrt: replay diverged at input %.*s (recorded %s)\n", (int)len, name, line); exit(91); }
    uint64_t v = strtoull(sp + 1, 0, 10);
    fprintf(stderr, "symrt: %.*s = %llu\n", (int)len, name, (unsigned long long)v);
    return bits < 64 ? v & ((1ull << bits) - 1) : v;
  }
  fprintf(stderr, "symrt: replay inputs exhausted at %.*s\n", (int)len, name);
  return 0;
}
void __sym_assume(_Bool c) { if (!c) { fprintf(stderr, "symrt: assumption violated in replay\n"); exit(92); } }
void __sym_assert(_Bool c, const char *msg, size_t len) { if (!c) { fprintf(stderr, "symrt: ASSERTION VIOLATED: %.*s\n", (int)len, msg); fflush(stderr); exit(101); } }
uint64_t __sym_concretize(uint64_t v) { return v; }
void __sym_reach(const char *n, size_t len) { (void)n; (void)len; }
_Bool __sym_is_symbolic(void) { return 0; }
void __sym_end_path(void) { exit(93); }
void __sym_print(const char *n, size_t len, uint64_t v) { fprintf(stderr, "%.*s %llu\n", (int)len, n, (unsigned long long)v); }
void __sym_reals(void) {}
// schedules ("sched" inputs) are replayed by the executor only: natively the threads run freely
void __sym_preempt(uint64_t n, uint64_t d) { (void)n; (void)d; }
