#pragma once
#include <cstdint>
extern "C" uint64_t shim_rand();
namespace butil { inline uint64_t fast_rand() { return shim_rand(); } inline uint64_t fast_rand_less_than(uint64_t n) { return n ? shim_rand() % n : 0; } inline int64_t fast_rand_in(int64_t a, int64_t b) { return a + (int64_t)(shim_rand() % (uint64_t)(b - a + 1)); } inline double fast_rand_double() { return 0; } }
