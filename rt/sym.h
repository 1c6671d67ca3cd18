// Interface between harnesses and the symbolic executor (and the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
extern "C" {
uint64_t sym_var(const char* name, unsigned bits);                                    // fresh symbolic value, zero extended
uint64_t sym_var_range(const char* name, unsigned bits, uint64_t lo, uint64_t hi);     // unsigned inclusive range
void sym_bytes(void* p, size_t n, const char* name);
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_cover(const char* label);
void sym_observe(const char* name, uint64_t v);
uint64_t sym_concretize(uint64_t v);
void sym_concretize_bytes(void* p, size_t n);
bool sym_fork(bool c);       // returns a concrete truth value (explores both)
[[noreturn]] void sym_fail(const char* msg);
[[noreturn]] void sym_stop();
[[noreturn]] void sym_unsupported(const char* what);
bool sym_is_symbolic();
bool sym_is_concrete(uint64_t v);
uint64_t sym_param(const char* name, uint64_t dflt);
void sym_print(const char* name, uint64_t v);
uint64_t sym_ite(bool c, uint64_t a, uint64_t b);
int sym_thread_new(void (*fn)(void*), void* arg);   // a suspended cooperative thread; fn never returns
void sym_thread_switch(int id);
void harness_main();
}
inline int64_t sym_i64(const char* n) { return (int64_t)sym_var(n, 64); }
inline uint64_t sym_u64(const char* n) { return sym_var(n, 64); }
inline int32_t sym_i32(const char* n) { return (int32_t)(uint32_t)sym_var(n, 32); }
inline uint32_t sym_u32(const char* n) { return (uint32_t)sym_var(n, 32); }
inline uint8_t sym_u8(const char* n) { return (uint8_t)sym_var(n, 8); }
inline bool sym_bool(const char* n) { return sym_var(n, 1) != 0; }
// symbolic, in [lo, hi]
inline uint64_t sym_in(const char* n, uint64_t lo, uint64_t hi) { return sym_var_range(n, 64, lo, hi); }
// concrete on every path: one path per value
inline uint64_t sym_choice(const char* n, uint64_t count) { return count <= 1 ? 0 : sym_concretize(sym_var_range(n, 32, 0, count - 1)); }
inline bool sym_flip(const char* n) { return sym_choice(n, 2) != 0; }
inline std::string sym_str(const char* n, size_t len) { std::string s(len, '\0'); if (len) sym_bytes(&s[0], len, n); return s; }
// length chosen in [lo, hi] (one path per length), bytes symbolic
inline std::string sym_str_upto(const char* n, size_t lo, size_t hi) { return sym_str(n, lo + sym_choice("len", hi - lo + 1)); }
#define SYM_ASSERT(c) sym_assert((c), #c)
