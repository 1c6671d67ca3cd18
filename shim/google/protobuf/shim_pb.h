// Minimal stand-in for the protobuf runtime.
#pragma once
#include <climits>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <map>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <algorithm>
#include <memory>
#include <functional>
#include <unordered_map>
#include "sym.h"
#define GOOGLE_PROTOBUF_VERSION 3021012
namespace google { namespace protobuf {
typedef int64_t int64; typedef int32_t int32; typedef uint64_t uint64; typedef uint32_t uint32;
inline const std::string& EmptyName() { static const std::string* s = new std::string(); return *s; }
class Descriptor; class Reflection; class FieldDescriptor; class EnumDescriptor; class MethodDescriptor; class ServiceDescriptor; class EnumValueDescriptor;
class EnumValueDescriptor { public: const std::string& name() const { return EmptyName(); } int number() const { return 0; } };
class EnumDescriptor { public: int value_count() const { return 0; } const EnumValueDescriptor* value(int) const { return nullptr; } const EnumValueDescriptor* FindValueByName(const std::string&) const { return nullptr; } const EnumValueDescriptor* FindValueByNumber(int) const { return nullptr; } };
class Message;
class Writer {
 public:
  std::string s;
  void Raw(const void* p, size_t n) { s.append((const char*)p, n); }
  void U32(uint32_t v) { Raw(&v, 4); }
  template <class T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type Any(const T& v) {
    if constexpr (std::is_same<T, bool>::value) { uint8_t b = v; Raw(&b, 1); } else Raw(&v, sizeof v);
  }
  void Any(const std::string& v) { U32((uint32_t)v.size()); Raw(v.data(), v.size()); }
  inline void Any(const Message& m);
};
class Reader {
 public:
  const char* p; size_t n;
  Reader(const char* p, size_t n) : p(p), n(n) {}
  bool Raw(void* d, size_t k) { if (k > n) return false; memcpy(d, p, k); p += k; n -= k; return true; }
  bool U32(uint32_t& v) { if (!Raw(&v, 4)) return false; return true; }
  template <class T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, bool>::type Any(T& v) {
    if constexpr (std::is_same<T, bool>::value) { uint8_t b; if (!Raw(&b, 1)) return false; v = b != 0; return true; } else return Raw(&v, sizeof v);
  }
  bool Any(std::string& v) { uint32_t k; if (!U32(k) || k > n) return false; v.assign(p, k); p += k; n -= k; return true; }
  inline bool Any(Message& m);
};
class MessageLite {
 public:
  virtual ~MessageLite() {}
  virtual void Enc(Writer& w) const = 0; virtual bool Dec(Reader& r) = 0; virtual void Clear() = 0;
  virtual std::string GetTypeName() const { return ""; }
  std::string SerializeAsString() const { Writer w; Enc(w); return std::move(w.s); }
  bool SerializeToString(std::string* o) const { Writer w; Enc(w); *o = std::move(w.s); return true; }
  bool AppendToString(std::string* o) const { Writer w; Enc(w); *o += w.s; return true; }
  bool SerializePartialToString(std::string* o) const { return SerializeToString(o); }
  template <class Z> bool SerializeToZeroCopyStream(Z* z) const { z->Put(SerializeAsString()); return true; }
  bool SerializeToArray(void* d, int n) const { std::string s = SerializeAsString(); if ((size_t)n < s.size()) return false; memcpy(d, s.data(), s.size()); return true; }
  bool ParseFromArray(const void* d, int n) { Clear(); if (n == 0) return true; Reader r((const char*)d, n); return Dec(r) && r.n == 0; }
  bool ParseFromString(std::string_view s) { return ParseFromArray(s.data(), (int)s.size()); }
  bool ParsePartialFromString(std::string_view s) { return ParseFromString(s); }
  bool ParsePartialFromArray(const void* d, int n) { return ParseFromArray(d, n); } std::string SerializePartialAsString() const { return SerializeAsString(); } bool ParseFromIstream(std::istream*) { return false; } bool SerializeToOstream(std::ostream*) const { return false; }
  template <class Z> bool ParseFromZeroCopyStream(Z* z) { return ParseFromString(z->Get()); }
  virtual bool Def() const { return true; }  // every field has its default value
  size_t ByteSizeLong() const { if (Def()) return 0; Writer w; Enc(w); return w.s.size(); }
  int ByteSize() const { return (int)ByteSizeLong(); }
};
class Message : public MessageLite {
 public:
  std::string DebugString() const { return std::string(); } std::string ShortDebugString() const { return std::string(); } std::string Utf8DebugString() const { return std::string(); }
  const Descriptor* GetDescriptor() const; const Reflection* GetReflection() const;
  std::string InitializationErrorString() const { return std::string(); }
};
inline void Writer::Any(const Message& m) { m.Enc(*this); }
inline bool Reader::Any(Message& m) { return m.Dec(*this); }
template <class D> class EmptyMsg : public Message {
 public:
  static const D& default_instance() { static D* d = new D(); return *d; } D* New() const { return new D(); }
  void CopyFrom(const D&) {} void MergeFrom(const D&) {} void Swap(D*) {} void swap(D&) {} void Clear() override {} bool IsInitialized() const { return true; }
  void Enc(Writer&) const override {} bool Dec(Reader&) override { return true; } bool Eq(const D&) const { return true; }
  static const Descriptor* descriptor() { return nullptr; } const Descriptor* GetDescriptor() const { return nullptr; } const Reflection* GetReflection() const { return nullptr; }
};
template <class T> T MergeScalar(T a, T b) { return b ? b : a; }

template <class T> struct SubMsg {
  T* p = nullptr;
  SubMsg() {} SubMsg(const SubMsg& o) : p(o.p ? new T(*o.p) : nullptr) {} ~SubMsg() { delete p; }
  SubMsg& operator=(const SubMsg& o) { if (this == &o) return *this; if (!o.p) reset(); else *mut() = *o.p; return *this; }
  T* mut() { if (!p) p = new T(); return p; }
  void reset() { delete p; p = nullptr; } T* release() { T* r = p; p = nullptr; return r; } void adopt(T* v) { if (p != v) delete p; p = v; }
};
template <class T> class RepeatedField {
  std::vector<T> v_x;
  typedef typename std::conditional<std::is_same<T, bool>::value, uint8_t, T>::type S;
  std::vector<S> v;
 public:
  typedef T value_type; typedef S* iterator; typedef const S* const_iterator; typedef size_t size_type; typedef const T& const_reference;
  RepeatedField() {} template <class It> RepeatedField(It a, It b) : v(a, b) {}
  int size() const { return (int)v.size(); } bool empty() const { return v.empty(); } int Capacity() const { return (int)v.capacity(); }
  T Get(int i) const { return (T)v.at(i); } S& operator[](int i) { return v.at(i); } const S& operator[](int i) const { return v.at(i); } const S& at(int i) const { return v.at(i); } S& at(int i) { return v.at(i); } S* Mutable(int i) { return &v.at(i); } void Set(int i, T x) { v.at(i) = x; }
  void Add(T x) { v.push_back(x); } S* Add() { v.push_back(S()); return &v.back(); } template <class It> void Add(It a, It b) { v.insert(v.end(), a, b); } void push_back(T x) { v.push_back(x); }
  void Clear() { v.clear(); } void clear() { v.clear(); } void Reserve(int n) { v.reserve(n); } void Resize(int n, T x) { v.resize(n, x); } void resize(int n, T x) { v.resize(n, x); } void Truncate(int n) { v.resize(n); } void RemoveLast() { v.pop_back(); }
  void MergeFrom(const RepeatedField& o) { v.insert(v.end(), o.v.begin(), o.v.end()); } void CopyFrom(const RepeatedField& o) { v = o.v; } void Swap(RepeatedField* o) { v.swap(o->v); }
  iterator begin() { return v.data(); } iterator end() { return v.data() + v.size(); } const_iterator begin() const { return v.data(); } const_iterator end() const { return v.data() + v.size(); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  S* mutable_data() { return v.data(); } const S* data() const { return v.data(); } iterator erase(const_iterator p) { size_t i = p - v.data(); v.erase(v.begin() + i); return v.data() + i; } iterator erase(const_iterator a, const_iterator b) { size_t i = a - v.data(), j = b - v.data(); v.erase(v.begin() + i, v.begin() + j); return v.data() + i; }
  bool Eq(const RepeatedField& o) const { return v == o.v; } template <class It> void Assign(It a, It b) { v.assign(a, b); }
};
inline bool EqAny(const std::string& a, const std::string& b) { return a == b; }
template <class M> auto EqAny(const M& a, const M& b) -> decltype(a.Eq(b)) { return a.Eq(b); }
template <class T> typename std::enable_if<!std::is_class<T>::value, bool>::type EqVal(T a, T b) { return a == b; }
template <class T> typename std::enable_if<std::is_class<T>::value, bool>::type EqVal(const T& a, const T& b) { return EqAny(a, b); }
template <class T> class RepeatedPtrField {
  std::vector<T*> v;
 public:
  typedef T value_type; typedef T& reference; typedef const T& const_reference; typedef size_t size_type;
  template <class P, class R> struct It {
    typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef R* pointer; typedef R& reference;
    P p; It() : p() {} It(P p) : p(p) {} template <class P2, class R2> It(const It<P2, R2>& o) : p(o.p) {}
    R& operator*() const { return **p; } R* operator->() const { return *p; } R& operator[](difference_type n) const { return *p[n]; }
    It& operator++() { ++p; return *this; } It operator++(int) { It t = *this; ++p; return t; } It& operator--() { --p; return *this; } It operator--(int) { It t = *this; --p; return t; }
    It& operator+=(difference_type n) { p += n; return *this; } It& operator-=(difference_type n) { p -= n; return *this; } It operator+(difference_type n) const { return It(p + n); } It operator-(difference_type n) const { return It(p - n); }
    difference_type operator-(const It& o) const { return p - o.p; } bool operator==(const It& o) const { return p == o.p; } bool operator!=(const It& o) const { return p != o.p; } bool operator<(const It& o) const { return p < o.p; } bool operator>(const It& o) const { return p > o.p; } bool operator<=(const It& o) const { return p <= o.p; } bool operator>=(const It& o) const { return p >= o.p; }
  };
  typedef It<T**, T> iterator; typedef It<T* const*, const T> const_iterator; typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  RepeatedPtrField() {} RepeatedPtrField(const RepeatedPtrField& o) { MergeFrom(o); } RepeatedPtrField(RepeatedPtrField&& o) noexcept : v(std::move(o.v)) { o.v.clear(); } ~RepeatedPtrField() { Clear(); }
  template <class It2> RepeatedPtrField(It2 a, It2 b) { for (; a != b; ++a) *Add() = *a; }
  RepeatedPtrField& operator=(const RepeatedPtrField& o) { if (this != &o) { Clear(); MergeFrom(o); } return *this; } RepeatedPtrField& operator=(RepeatedPtrField&& o) noexcept { if (this != &o) { Clear(); v.swap(o.v); } return *this; }
  int size() const { return (int)v.size(); } bool empty() const { return v.empty(); }
  const T& Get(int i) const { return *v.at(i); } T* Mutable(int i) { return v.at(i); } const T& operator[](int i) const { return *v.at(i); } T& operator[](int i) { return *v.at(i); } const T& at(int i) const { return *v.at(i); } T& at(int i) { return *v.at(i); }
  T* Add() { v.push_back(new T()); return v.back(); } void Add(T&& x) { *Add() = std::move(x); } void Add(const T& x) { *Add() = x; } template <class It2> void Add(It2 a, It2 b) { for (; a != b; ++a) *Add() = *a; } void push_back(const T& x) { *Add() = x; } void AddAllocated(T* t) { v.push_back(t); } T* ReleaseLast() { T* t = v.back(); v.pop_back(); return t; }
  void Clear() { for (T* t : v) delete t; v.clear(); } void clear() { Clear(); } void Reserve(int n) { v.reserve(n); } void RemoveLast() { delete v.back(); v.pop_back(); } void DeleteSubrange(int s, int n) { for (int i = 0; i < n; i++) delete v[s + i]; v.erase(v.begin() + s, v.begin() + s + n); } void SwapElements(int i, int j) { std::swap(v[i], v[j]); }
  void MergeFrom(const RepeatedPtrField& o) { size_t n = o.v.size(); for (size_t i = 0; i < n; i++) v.push_back(new T(*o.v[i])); } void CopyFrom(const RepeatedPtrField& o) { *this = o; } void Swap(RepeatedPtrField* o) { v.swap(o->v); } void swap(RepeatedPtrField& o) { v.swap(o.v); } template <class It2> void Assign(It2 a, It2 b) { Clear(); Add(a, b); }
  iterator begin() { return iterator(v.data()); } iterator end() { return iterator(v.data() + v.size()); } const_iterator begin() const { return const_iterator(v.data()); } const_iterator end() const { return const_iterator(v.data() + v.size()); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); } const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  iterator erase(const_iterator p) { size_t i = p.p - v.data(); delete v[i]; v.erase(v.begin() + i); return iterator(v.data() + i); } iterator erase(const_iterator a, const_iterator b) { size_t i = a.p - v.data(), n = b.p - a.p; DeleteSubrange((int)i, (int)n); return iterator(v.data() + i); }
  bool Eq(const RepeatedPtrField& o) const { if (v.size() != o.v.size()) return false; for (size_t i = 0; i < v.size(); i++) if (!EqAny(*v[i], *o.v[i])) return false; return true; }
};
template <class T> std::back_insert_iterator<RepeatedPtrField<T>> RepeatedPtrFieldBackInserter(RepeatedPtrField<T>* f) { return std::back_insert_iterator<RepeatedPtrField<T>>(*f); }
template <class K, class V> class Map : public std::map<K, V> {
 public:
  using std::map<K, V>::map;
  bool contains(const K& k) const { return this->count(k) > 0; }
  bool operator==(const Map& o) const { if (this->size() != o.size()) return false; auto i = this->begin(); auto j = o.begin(); for (; i != this->end(); ++i, ++j) { if (!(i->first == j->first)) return false; if (!EqVal(i->second, j->second)) return false; } return true; }
};
class Closure { public: Closure() {} virtual ~Closure() {} virtual void Run() = 0; };
class FnClosure : public Closure { public: std::function<void()> f; FnClosure(std::function<void()> f) : f(std::move(f)) {} void Run() override { f(); delete this; } };
template <class F, class... A> Closure* NewCallback(F f, A... a) { return new FnClosure([=] { f(a...); }); }
inline void DoNothing() {}
class RpcController { public: virtual ~RpcController() {} virtual void Reset() {} virtual bool Failed() const { return false; } virtual std::string ErrorText() const { return ""; } virtual void SetFailed(const std::string&) {} virtual void StartCancel() {} virtual bool IsCanceled() const { return false; } virtual void NotifyOnCancel(Closure*) {} };
class RpcChannel { public: virtual ~RpcChannel() {} };
class Service { public: virtual ~Service() {} };
class Descriptor { public: const std::string& full_name() const { return EmptyName(); } const std::string& name() const { return EmptyName(); } int field_count() const { return 0; } const FieldDescriptor* field(int) const { return nullptr; } const FieldDescriptor* FindFieldByName(const std::string&) const { return nullptr; } };
class MethodDescriptor { public: const std::string& full_name() const { return EmptyName(); } const std::string& name() const { return EmptyName(); } const ServiceDescriptor* service() const { return nullptr; } };
extern "C" const void* shim_method(const void* service, const void* name);
class ServiceDescriptor { public: const std::string& full_name() const { return EmptyName(); } const std::string& name() const { return EmptyName(); } const MethodDescriptor* FindMethodByName(const std::string& n) const { return (const MethodDescriptor*)shim_method(this, &n); } int method_count() const { return 0; } const MethodDescriptor* method(int) const { return nullptr; } };
class FieldDescriptor { public: enum CppType { CPPTYPE_INT32 = 1, CPPTYPE_INT64, CPPTYPE_UINT32, CPPTYPE_UINT64, CPPTYPE_DOUBLE, CPPTYPE_FLOAT, CPPTYPE_BOOL, CPPTYPE_ENUM, CPPTYPE_STRING, CPPTYPE_MESSAGE }; CppType cpp_type() const { return CPPTYPE_INT32; } const std::string& name() const { return EmptyName(); } bool is_repeated() const { return false; } const Descriptor* message_type() const { static Descriptor d; return &d; } };
class Reflection { public:
  template <class M> Message* MutableMessage(M*, const FieldDescriptor*) const { return nullptr; } template <class M> const Message& GetMessage(const M&, const FieldDescriptor*) const { static Message* m = nullptr; return *m; } template <class M> bool HasField(const M&, const FieldDescriptor*) const { return false; } template <class M, class T> void SetInt64(M*, const FieldDescriptor*, T) const {} template <class M, class T> void SetInt32(M*, const FieldDescriptor*, T) const {} template <class M, class T> void SetString(M*, const FieldDescriptor*, T) const {} template <class M> std::string GetString(const M&, const FieldDescriptor*) const { return ""; } template <class M> int64_t GetInt64(const M&, const FieldDescriptor*) const { return 0; } template <class M> int FieldSize(const M&, const FieldDescriptor*) const { return 0; } template <class M> Message* AddMessage(M*, const FieldDescriptor*) const { return nullptr; } };
inline const Descriptor* Message::GetDescriptor() const { static Descriptor d; return &d; } inline const Reflection* Message::GetReflection() const { static Reflection r; return &r; }
namespace util {
struct JsonPrintOptions { bool add_whitespace = false, always_print_primitive_fields = false, preserve_proto_field_names = false; }; struct JsonOptions : JsonPrintOptions {}; struct JsonParseOptions { bool ignore_unknown_fields = false; };
struct Status { bool ok() const { return true; } std::string ToString() const { return ""; } std::string message() const { return ""; } };
template <class M> Status MessageToJsonString(const M&, std::string*, const JsonPrintOptions& = JsonPrintOptions()) { return {}; } template <class M> Status JsonStringToMessage(const std::string&, M*, const JsonParseOptions& = JsonParseOptions()) { return {}; }
struct MessageDifferencer { template <class A> static bool Equals(const A& a, const A& b) { return a.Eq(b); } };
}
} }

namespace google { namespace protobuf { namespace internal { struct Mutex { void Lock() {} void Unlock() {} }; template <class T> using RepeatedPtrIterator = std::conditional_t<std::is_const_v<T>, typename RepeatedPtrField<std::remove_const_t<T>>::const_iterator, typename RepeatedPtrField<T>::iterator>; } } }
