#pragma once
#include <ostream>
#include <string>
#include <string_view>
#include <cstring>
namespace butil {
class IOBuf { public: IOBuf& operator=(const std::string& x) { clear(); append(x); return *this; } std::string s; IOBuf() {} size_t size() const { return s.size(); } size_t length() const { return s.size(); } bool empty() const { return s.empty(); } void clear() { s.clear(); } int append(const void* p, size_t n) { s.append((const char*)p, n); return 0; } int append(const std::string& x) { s += x; return 0; } int append(const char* x) { s += x; return 0; } void append(const IOBuf& o) { s += o.s; } void append(IOBuf&& o) { s += o.s; } void push_back(char c) { s += c; } std::string to_string() const { return s; } size_t copy_to(void* d, size_t n = (size_t)-1, size_t pos = 0) const { if (pos >= s.size()) return 0; size_t k = std::min(n, s.size() - pos); memcpy(d, s.data() + pos, k); return k; } size_t copy_to(std::string* d, size_t n = (size_t)-1, size_t pos = 0) const { d->assign(pos < s.size() ? s.substr(pos, n) : std::string()); return d->size(); } size_t cutn(IOBuf* o, size_t n) { n = std::min(n, s.size()); o->s += s.substr(0, n); s.erase(0, n); return n; } size_t cutn(void* o, size_t n) { n = std::min(n, s.size()); memcpy(o, s.data(), n); s.erase(0, n); return n; } size_t cutn(std::string* o, size_t n) { n = std::min(n, s.size()); *o += s.substr(0, n); s.erase(0, n); return n; } size_t pop_front(size_t n) { n = std::min(n, s.size()); s.erase(0, n); return n; } size_t pop_back(size_t n) { n = std::min(n, s.size()); s.resize(s.size() - n); return n; } void swap(IOBuf& o) { s.swap(o.s); } size_t backing_block_num() const { return s.empty() ? 0 : 1; } std::string_view backing_block(size_t i) const { return s; } bool equals(const std::string& o) const { return s == o; } const void* fetch(void* d, size_t n) const { if (n > s.size()) return nullptr; return s.data(); } const void* fetch1() const { return s.empty() ? nullptr : s.data(); } size_t append_to(IOBuf* o, size_t n = (size_t)-1, size_t pos = 0) const { if (pos > s.size()) return 0; std::string t = s.substr(pos, n); o->s += t; return t.size(); } };
inline std::ostream& operator<<(std::ostream& o, const IOBuf&) { return o; }
class IOBufAsZeroCopyInputStream { public: const IOBuf* b; explicit IOBufAsZeroCopyInputStream(const IOBuf& b) : b(&b) {} const std::string& Get() const { return b->s; } };
class IOBufAsZeroCopyOutputStream { public: IOBuf* b; explicit IOBufAsZeroCopyOutputStream(IOBuf* b) : b(b) {} void Put(const std::string& x) { b->s += x; } };
class IOBufBuilder : public IOBuf { public: template <class T> IOBufBuilder& operator<<(const T&) { return *this; } IOBuf& buf() { return *this; } void move_to(IOBuf& o) { o.s.swap(s); } };
class IOPortal : public IOBuf { public: ssize_t append_from_file_descriptor(int, size_t) { return -1; } };
}
