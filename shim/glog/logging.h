// glog replacement: messages are not formatted; CHECK/FATAL end the process as in glog (reported to the harness).
#pragma once
#include <cstdint>
#include <ctime>
#include <ostream>
#include <string>
extern "C" void shim_fatal(const char* file, int line);
namespace google {
typedef int LogSeverity;
const int INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3, GLOG_INFO = 0, GLOG_WARNING = 1, GLOG_ERROR = 2, GLOG_FATAL = 3;
struct LogMessageTime { int hour() const { return 0; } int min() const { return 0; } int sec() const { return 0; } int usec() const { return 0; } int year() const { return 0; } int month() const { return 0; } int day() const { return 0; } };
struct LogMessageInfo { const char* const severity = ""; const char* const filename = ""; int line_number = 0; int thread_id = 0; LogMessageTime time; };
struct NullStream { template <class T> NullStream& operator<<(const T&) { return *this; } NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } };
struct Fatal { const char* f; int l; Fatal(const char* f, int l) : f(f), l(l) {} ~Fatal() { shim_fatal(f, l); } NullStream s; NullStream& stream() { return s; } };
struct Voidify { void operator&(NullStream&) {} void operator&(NullStream&&) {} };
inline void InitGoogleLogging(const char*) {}
template <class F> void InitGoogleLogging(const char*, F, void* = nullptr) {}
inline void SetLogDestination(int, const char*) {}
inline void SetStderrLogging(int) {}
inline void FlushLogFiles(int) {}
inline void InstallFailureSignalHandler() {}
inline void InstallFailureWriter(void (*)(const char*, size_t)) {}
inline void SetVLOGLevel(const char*, int) {}
class LogMessageVoidify {};
}
#define SHIM_LOG_NULL true ? (void)0 : ::google::Voidify() & ::google::NullStream()
#define SHIM_LOG_INFO SHIM_LOG_NULL
#define SHIM_LOG_WARNING SHIM_LOG_NULL
#define SHIM_LOG_ERROR SHIM_LOG_NULL
#define SHIM_LOG_FATAL ::google::Fatal(__FILE__, __LINE__).stream()
#define LOG(sev) SHIM_LOG_##sev
#define VLOG(n) SHIM_LOG_NULL
#define VLOG_IF(n, c) SHIM_LOG_NULL
#define VLOG_IS_ON(n) false
#define LOG_IF(sev, c) SHIM_LOG_IF_##sev(c)
#define SHIM_LOG_IF_INFO(c) SHIM_LOG_NULL
#define SHIM_LOG_IF_WARNING(c) SHIM_LOG_NULL
#define SHIM_LOG_IF_ERROR(c) SHIM_LOG_NULL
#define SHIM_LOG_IF_FATAL(c) !(c) ? (void)0 : ::google::Voidify() & ::google::Fatal(__FILE__, __LINE__).stream()
#define LOG_EVERY_N(sev, n) SHIM_LOG_NULL
#define LOG_EVERY_T(sev, n) SHIM_LOG_NULL
#define LOG_FIRST_N(sev, n) SHIM_LOG_NULL
#define LOG_IF_EVERY_N(sev, c, n) SHIM_LOG_NULL
#define PLOG(sev) SHIM_LOG_##sev
#define DLOG(sev) SHIM_LOG_NULL
#define DVLOG(n) SHIM_LOG_NULL
#define CHECK(c) (c) ? (void)0 : ::google::Voidify() & ::google::Fatal(__FILE__, __LINE__).stream()
#define PCHECK CHECK
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_NOTNULL(a) (a)
#define DCHECK(c) SHIM_LOG_NULL
#define DCHECK_EQ(a, b) SHIM_LOG_NULL
#define DCHECK_NE(a, b) SHIM_LOG_NULL
#define DCHECK_GT(a, b) SHIM_LOG_NULL
#define DCHECK_GE(a, b) SHIM_LOG_NULL
#define DCHECK_LT(a, b) SHIM_LOG_NULL
#define DCHECK_LE(a, b) SHIM_LOG_NULL
#define LOG_ASSERT CHECK
#define BRAFT_VLOG SHIM_LOG_NULL
extern int FLAGS_v, FLAGS_minloglevel, FLAGS_logbufsecs, FLAGS_max_log_size, FLAGS_logbuflevel, FLAGS_stderrthreshold;
extern bool FLAGS_logtostderr, FLAGS_alsologtostderr, FLAGS_colorlogtostderr, FLAGS_stop_logging_if_full_disk;
