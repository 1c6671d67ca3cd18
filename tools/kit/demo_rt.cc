// Native runtime for demonstrations: scripted or pseudo-random schedule choices instead of symbolic ones.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <ucontext.h>
#include <sys/wait.h>
void demo(int round); extern int demo_rounds;   // demo() calls DEMO_FAIL on a broken property
__attribute__((weak)) int demo_rounds = 1;
static uint64_t g_rng = 88172645463325252ull;
static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
extern "C" {
__attribute__((weak)) uint64_t demo_pick(const char*, uint64_t lo, uint64_t hi) { return lo + (hi - lo == ~0ull ? rnd() : rnd() % (hi - lo + 1)); }
uint64_t sym_var(const char* n, unsigned bits) { return demo_pick(n, 0, bits >= 64 ? ~0ull : (1ull << bits) - 1); }
uint64_t sym_var_range(const char* n, unsigned, uint64_t lo, uint64_t hi) { return demo_pick(n, lo, hi); }
void sym_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)demo_pick(name, 0, 255); }
void sym_assume(bool c) { if (!c) _exit(0); }
void sym_assert(bool c, const char* m) { if (!c) { printf("FAILED: %s\n", m); fflush(stdout); _exit(1); } }
void sym_cover(const char*) {} void sym_observe(const char*, uint64_t) {} uint64_t sym_concretize(uint64_t v) { return v; } void sym_concretize_bytes(void*, size_t) {} bool sym_fork(bool c) { return c; }
void sym_fail(const char* m) { printf("FAILED: %s\n", m); fflush(stdout); _exit(1); } void sym_stop() { _exit(0); } void sym_unsupported(const char* w) { printf("unsupported %s\n", w); _exit(0); }
bool sym_is_symbolic() { return false; } bool sym_is_concrete(uint64_t) { return true; } uint64_t sym_param(const char*, uint64_t d) { return d; } void sym_print(const char* n, uint64_t v) { printf("%s=%lld\n", n, (long long)v); } uint64_t sym_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
struct Thr { ucontext_t c; void (*fn)(void*); void* arg; };
static std::vector<Thr*>* g_thr; static int g_cur = 0;
static void trampoline(int i) { (*g_thr)[i]->fn((*g_thr)[i]->arg); _exit(3); }
int sym_thread_new(void (*fn)(void*), void* arg) { if (!g_thr) { g_thr = new std::vector<Thr*>(); g_thr->push_back(new Thr()); } Thr* t = new Thr(); t->fn = fn; t->arg = arg; getcontext(&t->c); t->c.uc_stack.ss_size = 1 << 20; t->c.uc_stack.ss_sp = malloc(1 << 20); t->c.uc_link = nullptr; g_thr->push_back(t); makecontext(&t->c, (void (*)())trampoline, 1, (int)g_thr->size() - 1); return (int)g_thr->size() - 1; }
void sym_thread_switch(int id) { if (id == g_cur) return; int o = g_cur; g_cur = id; swapcontext(&(*g_thr)[o]->c, &(*g_thr)[id]->c); }
}
int main() { for (int r = 0; r < demo_rounds; ++r) { fflush(stdout); pid_t p = fork(); if (p == 0) { alarm(60); g_rng += 0x9E3779B97F4A7C15ull * (r + 1); for (int i = 0; i < 20; i++) rnd(); demo(r); fflush(stdout); _exit(0); } int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("demonstration failed in round %d (status %d)\n", r, st); return 1; } } printf("demonstration passed\n"); return 0; }
