#pragma once
#include <cstdint>
#include <string>
#include <vector>
typedef int32_t int32; typedef int64_t int64; typedef uint32_t uint32; typedef uint64_t uint64;
namespace google {
typedef int32_t int32; typedef int64_t int64; typedef uint32_t uint32; typedef uint64_t uint64;
template <class F, class V> bool RegisterFlagValidator(const F*, V) { return true; }
inline std::string SetCommandLineOption(const char*, const char*) { return ""; }
inline bool GetCommandLineOption(const char*, std::string*) { return false; }
struct CommandLineFlagInfo { std::string name, type, description, current_value, default_value, filename; bool has_validator_fn = false, is_default = true; const void* flag_ptr = nullptr; };
inline bool GetCommandLineFlagInfo(const char*, CommandLineFlagInfo*) { return false; }
inline void GetAllFlags(std::vector<CommandLineFlagInfo>*) {}
inline void ParseCommandLineFlags(int*, char***, bool) {}
inline void SetUsageMessage(const std::string&) {} inline void SetVersionString(const std::string&) {}
}
namespace gflags = google;
#define SHIM_DEF(t, n, v) t FLAGS_##n = v; t FLAGS_no##n##_shim = v
#define DEFINE_int32(n, v, d) int32_t FLAGS_##n = v
#define DEFINE_uint32(n, v, d) uint32_t FLAGS_##n = v
#define DEFINE_int64(n, v, d) int64_t FLAGS_##n = v
#define DEFINE_uint64(n, v, d) uint64_t FLAGS_##n = v
#define DEFINE_bool(n, v, d) bool FLAGS_##n = v
#define DEFINE_double(n, v, d) double FLAGS_##n = v
#define DEFINE_string(n, v, d) std::string FLAGS_##n = v
#define DECLARE_int32(n) extern int32_t FLAGS_##n
#define DECLARE_uint32(n) extern uint32_t FLAGS_##n
#define DECLARE_int64(n) extern int64_t FLAGS_##n
#define DECLARE_uint64(n) extern uint64_t FLAGS_##n
#define DECLARE_bool(n) extern bool FLAGS_##n
#define DECLARE_double(n) extern double FLAGS_##n
#define DECLARE_string(n) extern std::string FLAGS_##n
#define SHIM_CAT2(a, b) a##b
#define SHIM_CAT(a, b) SHIM_CAT2(a, b)
#define DEFINE_validator(n, f) static bool SHIM_CAT(shim_validator_, __LINE__) __attribute__((unused)) = true
#define BRPC_VALIDATE_GFLAG(n, f) static bool SHIM_CAT(shim_validator_, __LINE__) __attribute__((unused)) = true
