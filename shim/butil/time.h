#pragma once
#include <cstdint>
#include <ctime>
extern "C" int64_t shim_now_us();   // harness-controlled clock
namespace butil {
inline int64_t gettimeofday_us() { return shim_now_us(); } inline int64_t gettimeofday_ms() { return shim_now_us() / 1000; } inline int64_t gettimeofday_s() { return shim_now_us() / 1000000; } inline int64_t cpuwide_time_us() { return shim_now_us(); } inline int64_t cpuwide_time_ns() { return shim_now_us() * 1000; } inline int64_t monotonic_time_us() { return shim_now_us(); } inline int64_t monotonic_time_ms() { return shim_now_us() / 1000; } inline int64_t monotonic_time_ns() { return shim_now_us() * 1000; } inline timespec milliseconds_from_now(int64_t) { return timespec{}; } inline timespec microseconds_from_now(int64_t) { return timespec{}; } inline timespec seconds_from_now(int64_t) { return timespec{}; } inline timespec milliseconds_to_timespec(int64_t ms) { timespec t{}; t.tv_sec = ms / 1000; return t; } inline timespec microseconds_to_timespec(int64_t) { return timespec{}; }
class Timer { public: enum T { STARTED }; Timer() {} explicit Timer(T) {} void start() {} void stop() {} int64_t u_elapsed() const { return 0; } int64_t m_elapsed() const { return 0; } int64_t n_elapsed() const { return 0; } int64_t s_elapsed() const { return 0; } };
}
