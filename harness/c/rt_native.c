// Native runtime of the harness primitives: replays a model (bytes of the symbolic variables in
// the order of their creation) against the real, natively compiled code.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
static unsigned char *model; static size_t model_len, model_pos;
void rt_load(const char *path) {
  FILE *f = fopen(path, "rb"); if (!f) { perror(path); exit(78); }
  fseek(f, 0, SEEK_END); model_len = ftell(f); rewind(f);
  model = malloc(model_len + 1); if (fread(model, 1, model_len, f) != model_len) exit(78); fclose(f);
}
static void line(const char *k, const char *p, size_t n) { printf("%s ", k); fwrite(p, 1, n, stdout); printf("\n"); fflush(stdout); }
void sym_bytes(unsigned char *p, size_t n, const char *name, size_t nl) { for (size_t i = 0; i < n; i++) p[i] = model_pos < model_len ? model[model_pos++] : 0; }
void sym_assume(bool b) { if (!b) { printf("ASSUME\n"); fflush(stdout); _Exit(77); } }
void sym_fail(const char *p, size_t n) { line("FAIL", p, n); _Exit(99); }
void sym_assert(bool b, const char *p, size_t n) { if (!b) sym_fail(p, n); }
void sym_reach(const char *p, size_t n) { line("REACH", p, n); }
void sym_observe(const unsigned char *p, size_t n) { printf("OBS "); for (size_t i = 0; i < n; i++) printf("%02x", p[i]); printf("\n"); }
uint64_t sym_concretize(uint64_t v) { return v; }
bool sym_is_symbolic(uint64_t v) { return false; }
uint64_t sym_live(void) { return 0; }
uint64_t sym_param(const char *p, size_t n, uint64_t d) {
  char k[64] = "PARAM_"; if (n > 50) return d; memcpy(k + 6, p, n); k[6 + n] = 0;
  const char *v = getenv(k); return v ? strtoull(v, 0, 10) : d;
}
