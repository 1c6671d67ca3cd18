// bvar replacement: counters that nobody reads back, except Status/Adder/IntRecorder get_value.
#pragma once
#include <cstdint>
#include <list>
#include <mutex>
#include <ostream>
#include <string>
#include <string_view>
#include <vector>
namespace bvar {
struct Variable { virtual ~Variable() {} template <class... A> int expose(const A&...) { return 0; } template <class... A> int expose_as(const A&...) { return 0; } bool hide() { return true; } std::string get_description() const { return ""; } static void list_exposed(std::vector<std::string>*) {} template <class... A> static std::string describe_exposed(const A&...) { return ""; } template <class... A> static int describe_exposed(const std::string&, std::ostream&, bool) { return 0; } };
template <class T> struct Num : Variable { T v{}; Num() {} template <class... A> Num(const std::string&, const A&...) {} template <class... A> Num(const char*, const A&...) {} template <class U> Num& operator<<(const U& u) { v += (T)u; return *this; } T get_value() const { return v; } void set_value(const T& t) { v = t; } T reset() { T o = v; v = T(); return o; } };
template <class T> struct Adder : Num<T> { using Num<T>::Num; }; template <class T> struct Status : Num<T> { Status() {} template <class... A> Status(const std::string&, const A&...) {} template <class... A> Status(const char*, const A&...) {} }; template <class T> struct Maxer : Num<T> { using Num<T>::Num; template <class U> Maxer& operator<<(const U& u) { if ((T)u > this->v) this->v = u; return *this; } }; template <class T> struct Miner : Num<T> { using Num<T>::Num; };
struct LatencyRecorder : Variable { LatencyRecorder() {} template <class... A> LatencyRecorder(const std::string&, const A&...) {} template <class... A> LatencyRecorder(const char*, const A&...) {} LatencyRecorder& operator<<(int64_t) { return *this; } int64_t latency() const { return 0; } int64_t qps() const { return 0; } int64_t count() const { return 0; } int64_t max_latency() const { return 0; } int64_t latency_percentile(double) const { return 0; } int64_t latency(int) const { return 0; } int64_t qps(int) const { return 0; } };
struct IntRecorder : Variable { IntRecorder() {} template <class... A> IntRecorder(const A&...) {} IntRecorder& operator<<(int64_t) { return *this; } int64_t average() const { return 0; } };
struct BasicPassiveStatusX {}; template <class T> struct PassiveStatus : Variable { template <class... A> PassiveStatus(const A&...) {} T get_value() const { return T(); } }; template <class T> struct GFlagX {}; struct GFlag : Variable { template <class... A> GFlag(const A&...) {} };
template <class T> struct Window : Variable { template <class... A> Window(const A&...) {} int64_t get_value() const { return 0; } }; template <class T> struct PerSecond : Window<T> { using Window<T>::Window; template <class U> PerSecond& operator<<(const U&) { return *this; } }; template <class T> using PerSecondEx = PerSecond<T>;
struct MVariable { typedef std::list<std::string> key_type; virtual ~MVariable() {} }; template <class T> struct MultiDimension : MVariable { T t; MultiDimension() {} template <class... A> MultiDimension(const std::string&, const A&...) {} MultiDimension(const char*, std::initializer_list<const char*>) {} void delete_stats() {} void delete_stats(std::initializer_list<std::string>) {} T* get_stats(std::initializer_list<std::string>) { return &t; } template <class... A> MultiDimension(const std::list<std::string>&, const A&...) {} MultiDimension(std::initializer_list<std::string>) {} template <class... A> MultiDimension(const char*, const A&...) {} template <class K> T* get_stats(const K&) { return &t; } T* get_stats(const std::list<std::string>&) { return &t; } template <class K> void delete_stats(const K&) {} void delete_stats(const std::list<std::string>&) {} template <class... A> bool expose(const A&...) { return true; } template <class K> bool has_stats(const K&) { return true; } bool has_stats(std::initializer_list<std::string>) { return true; } size_t count_stats() { return 0; } };
}
