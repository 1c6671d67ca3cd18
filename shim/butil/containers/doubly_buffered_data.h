#pragma once
#include <functional>
#include <utility>
namespace butil {
struct Void {};
// two instances, as in butil: Modify applies fn to the background copy, flips, and applies fn to the other copy
template <class T, class TLS = Void, bool A = false> class DoublyBufferedData {
  T d[2]; int idx = 0;
 public:
  class ScopedPtr { public: const T* p = nullptr; const T* get() const { return p; } const T& operator*() const { return *p; } const T* operator->() const { return p; } };
  int Read(ScopedPtr* p) { p->p = &d[idx]; return 0; }
  template <class F> size_t Modify(F fn) { size_t r = fn(d[!idx]); if (!r) return 0; idx = !idx; fn(d[!idx]); return r; }
  template <class F, class A1> size_t Modify(F fn, const A1& a) { size_t r = fn(d[!idx], a); if (!r) return 0; idx = !idx; fn(d[!idx], a); return r; }
  template <class F, class A1, class A2> size_t Modify(F fn, const A1& a, const A2& b) { size_t r = fn(d[!idx], a, b); if (!r) return 0; idx = !idx; fn(d[!idx], a, b); return r; }
  template <class F> size_t ModifyWithForeground(F fn) { size_t r = fn(d[!idx], d[idx]); if (!r) return 0; idx = !idx; fn(d[!idx], d[idx]); return r; }
};
}
