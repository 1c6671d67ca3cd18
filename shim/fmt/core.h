// fmt replacement.  Text only: messages are never parsed back by the code under check, so they are left empty unless
// SHIM_FMT_REAL asks for "{}" substitution of strings and concrete integers.
#pragma once
#include <cstdio>
#include <string>
#include <string_view>
#include <type_traits>
#include "sym.h"
namespace fmt {
template <class... A> struct format_string_t { std::string_view s; template <class S> format_string_t(const S& x) : s(x) {} };
namespace shim {
inline void add(std::string& o, const std::string& v) { o += v; }
inline void add(std::string& o, const char* v) { o += v; }
inline void add(std::string& o, std::string_view v) { o.append(v.data(), v.size()); }
inline void add(std::string& o, char v) { o += v; }
inline void addint(std::string& o, bool neg, uint64_t v) { char b[24]; int i = 24; do { b[--i] = '0' + v % 10; v /= 10; } while (v); if (neg) o += '-'; o.append(b + i, 24 - i); }
template <class T> typename std::enable_if<std::is_integral<T>::value>::type add(std::string& o, T v) { if (!sym_is_concrete((uint64_t)v)) { o += '#'; return; } bool neg = std::is_signed<T>::value && (int64_t)v < 0; addint(o, neg, neg ? 0 - (uint64_t)(int64_t)v : (uint64_t)v); }
template <class T> typename std::enable_if<!std::is_integral<T>::value>::type add(std::string& o, const T&) { o += '?'; }
inline void run(std::string& o, std::string_view f) { o.append(f.data(), f.size()); }
template <class A0, class... A> void run(std::string& o, std::string_view f, const A0& a, const A&... as) {
  size_t i = f.find('{'); if (i == f.npos) { o.append(f.data(), f.size()); return; }
  size_t j = f.find('}', i); o.append(f.data(), i); add(o, a); run(o, f.substr(j + 1), as...);
}
}
#ifdef SHIM_FMT_REAL
template <class S, class... A> std::string format(const S& f, const A&... a) { std::string o; shim::run(o, std::string_view(f), a...); return o; }
#else
template <class S, class... A> std::string format(const S&, const A&...) { return std::string(); }
#endif
template <class... A> void print(const A&...) {}
template <class... A> void println(const A&...) {}
template <class C> std::string join(const C&, std::string_view) { return std::string(); }
template <class T> std::string to_string(const T&) { return std::string(); }
struct runtime_s { std::string s; }; template <class S> std::string runtime(const S& s) { return std::string(s); }
template <class T> const void* ptr(T p) { return nullptr; }
template <class T, class C = char, class E = void> struct formatter { };
}
