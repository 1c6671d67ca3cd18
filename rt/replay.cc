// Native implementation of sym.h: feeds the values of a counterexample (or of a sampled path) to the harness.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <unistd.h>
#include <ucontext.h>
struct In { std::string name; unsigned w; uint64_t v; };
static std::vector<In> g_in; static size_t g_pos = 0; static std::map<std::string, uint64_t> g_param; static bool g_loaded = false;
static void load() {
  if (g_loaded) return; g_loaded = true;
  const char* f = getenv("SYM_REPLAY"); if (!f) { fprintf(stderr, "SYM_REPLAY not set\n"); _exit(3); }
  FILE* fp = fopen(f, "r"); if (!fp) { fprintf(stderr, "cannot open %s\n", f); _exit(3); }
  char k, nm[512]; unsigned w; unsigned long long v;
  char line[1024];
  while (fgets(line, sizeof line, fp)) {
    if (line[0] == 'i' && sscanf(line, "i %u %llu %511[^\n]", &w, &v, nm) == 3) g_in.push_back({nm, w, (uint64_t)v});
    else if (line[0] == 'p' && sscanf(line, "p %511s %llu", nm, &v) == 2) g_param[nm] = v;
  }
  (void)k; fclose(fp);
}
static uint64_t next(unsigned w, const char* name) {
  load();
  if (g_pos >= g_in.size()) { printf("REPLAY-DIVERGED more inputs than recorded (%s)\n", name); fflush(stdout); _exit(4); }
  In& i = g_in[g_pos++]; std::string nm = i.name.substr(0, i.name.rfind('@'));
  if (i.w != w || nm != name) { printf("REPLAY-DIVERGED input %zu is %s/%u, asked for %s/%u\n", g_pos - 1, i.name.c_str(), i.w, name, w); fflush(stdout); _exit(4); }
  return i.v;
}
extern "C" {
uint64_t sym_var(const char* name, unsigned bits) { return next(bits, name); }
uint64_t sym_var_range(const char* name, unsigned bits, uint64_t lo, uint64_t hi) { if (lo > hi) sym_stop(); uint64_t v = next(bits, name); if (v < lo || v > hi) { printf("REPLAY-DIVERGED range %s\n", name); fflush(stdout); _exit(4); } return v; }
void sym_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)next(8, name); }
void sym_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _exit(5); } }
void sym_assert(bool c, const char* msg) { if (!c) { printf("REPLAY-ASSERT-FAILED %s\n", msg); fflush(stdout); if (!getenv("SYM_KEEP_GOING")) _exit(10); } }
void sym_cover(const char* l) { printf("COVER %s\n", l); }
void sym_observe(const char* n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_concretize_bytes(void*, size_t) {}
bool sym_fork(bool c) { return c; }
void sym_fail(const char* msg) { printf("REPLAY-ASSERT-FAILED %s\n", msg); fflush(stdout); _exit(10); }
void sym_stop() { printf("REPLAY-STOPPED\n"); fflush(stdout); _exit(5); }
void sym_unsupported(const char* w) { printf("REPLAY-UNSUPPORTED %s\n", w); fflush(stdout); _exit(6); }
bool sym_is_symbolic() { return false; }
bool sym_is_concrete(uint64_t) { return true; }
uint64_t sym_param(const char* n, uint64_t d) { load(); auto it = g_param.find(n); return it == g_param.end() ? d : it->second; }
void sym_print(const char* n, uint64_t v) { fprintf(stderr, "PRINT %s %lld\n", n, (long long)v); }
struct Thr { ucontext_t c; void (*fn)(void*); void* arg; };
static std::vector<Thr*> g_thr; static int g_cur = 0;
static void trampoline(int i) { g_thr[i]->fn(g_thr[i]->arg); printf("REPLAY-UNSUPPORTED thread returned\n"); _exit(6); }
int sym_thread_new(void (*fn)(void*), void* arg) {
  if (g_thr.empty()) g_thr.push_back(new Thr());
  Thr* t = new Thr(); t->fn = fn; t->arg = arg; getcontext(&t->c); t->c.uc_stack.ss_size = 1 << 20; t->c.uc_stack.ss_sp = malloc(1 << 20); t->c.uc_link = nullptr;
  g_thr.push_back(t); makecontext(&t->c, (void (*)())trampoline, 1, (int)g_thr.size() - 1); return (int)g_thr.size() - 1;
}
void sym_thread_switch(int id) { if (id == g_cur) return; int o = g_cur; g_cur = id; swapcontext(&g_thr[o]->c, &g_thr[id]->c); }
uint64_t sym_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
}
int main() { load(); harness_main(); printf("REPLAY-COMPLETED\n"); fflush(stdout); _exit(0); }
