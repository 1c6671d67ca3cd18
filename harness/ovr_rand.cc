// Randomness that only spreads load (start-up order, election time-outs).
#include <random>
#include "common/helper.h"
namespace dingodb { int64_t Helper::GenerateRealRandomInteger(int64_t a, int64_t) { return a; } }
static unsigned shim_rand = 1;
namespace std { void random_device::_M_init(const std::string&) {} void random_device::_M_fini() {} unsigned random_device::_M_getval() { return shim_rand = shim_rand * 1103515245u + 12345u; } }
