#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
namespace butil {
template <class T> struct DefaultHasher { size_t operator()(const T&) const { return 0; } }; template <class T> struct DefaultEqualTo : std::equal_to<T> {};
struct BucketInfo { size_t longest_length = 0; double average_length = 0; };
// same interface as butil::FlatMap, iteration in key order (the real order is unspecified)
template <class K, class T, class H = DefaultHasher<K>, class E = DefaultEqualTo<K>, bool S = false> class FlatMap {
 public:
  std::map<K, T> m; bool inited = false;
  typedef typename std::map<K, T>::iterator iterator; typedef typename std::map<K, T>::const_iterator const_iterator; typedef K key_type; typedef T mapped_type; typedef std::pair<const K, T> value_type; typedef std::pair<const K, T> element_type;
  int init(size_t, unsigned = 80) { inited = true; return 0; } bool initialized() const { return inited; }
  T* insert(const K& k, const T& v) { auto r = m.insert({k, v}); if (!r.second) r.first->second = v; return &r.first->second; } T* insert(const std::pair<K, T>& p) { return insert(p.first, p.second); }
  size_t erase(const K& k, T* old = nullptr) { auto i = m.find(k); if (i == m.end()) return 0; if (old) *old = i->second; m.erase(i); return 1; }
  T* seek(const K& k) const { auto i = m.find(k); return i == m.end() ? nullptr : const_cast<T*>(&i->second); } T& operator[](const K& k) { return m[k]; }
  size_t size() const { return m.size(); } bool empty() const { return m.empty(); } void clear() { m.clear(); } void clear_and_reset_pool() { m.clear(); } iterator begin() { return m.begin(); } iterator end() { return m.end(); } const_iterator begin() const { return m.begin(); } const_iterator end() const { return m.end(); } bool resize(size_t) { return true; } void swap(FlatMap& o) { m.swap(o.m); std::swap(inited, o.inited); } size_t bucket_count() const { return 64; } unsigned load_factor() const { return 80; } BucketInfo bucket_info() const { return {}; }
};
template <class K, class T> class CaseIgnoredFlatMapX {};
template <class K> class FlatSet { public: std::set<K> m; int init(size_t, unsigned = 80) { return 0; } void insert(const K& k) { m.insert(k); } const K* seek(const K& k) const { auto i = m.find(k); return i == m.end() ? nullptr : &*i; } size_t erase(const K& k) { return m.erase(k); } size_t size() const { return m.size(); } void clear() { m.clear(); } typename std::set<K>::iterator begin() { return m.begin(); } typename std::set<K>::iterator end() { return m.end(); } };
}
