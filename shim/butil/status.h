#pragma once
#include <cstdarg>
#include <ostream>
#include <string>
#include <string_view>
namespace butil {
// code only: the message is kept empty (it is never parsed back)
class Status {
 public:
  Status() {} static Status OK() { return Status(); }
  template <class... A> Status(int code, const char*, A...) : c_(code) {}
  Status(int code, const std::string&) : c_(code) {}
  template <class... A> int set_error(int code, const char*, A...) { c_ = code; return 0; }
  int set_error(int code, const std::string&) { c_ = code; return 0; }
  void reset() { c_ = 0; } bool ok() const { return c_ == 0; } int error_code() const { return c_; }
  const char* error_cstr() const { return c_ ? "error" : "OK"; } std::string_view error_data() const { return error_cstr(); } std::string error_str() const { return error_cstr(); }
  void swap(Status& o) { std::swap(c_, o.c_); }
 private:
  int c_ = 0;
};
inline std::ostream& operator<<(std::ostream& os, const Status&) { return os; }
}
