#pragma once
namespace butil { template <class T> class RefCountedThreadSafe { mutable int rc = 0; public: void AddRef() const { ++rc; } bool Release() const { if (--rc == 0) { delete static_cast<const T*>(this); return true; } return false; } bool HasOneRef() const { return rc == 1; } protected: ~RefCountedThreadSafe() {} friend T; }; }
template <class T> class scoped_refptr { T* p = nullptr; public: scoped_refptr() {} scoped_refptr(T* x) : p(x) { if (p) p->AddRef(); } scoped_refptr(const scoped_refptr& o) : p(o.p) { if (p) p->AddRef(); } ~scoped_refptr() { if (p) p->Release(); } scoped_refptr& operator=(const scoped_refptr& o) { return *this = o.p; } scoped_refptr& operator=(T* x) { if (x) x->AddRef(); T* o = p; p = x; if (o) o->Release(); return *this; } T* get() const { return p; } T* operator->() const { return p; } T& operator*() const { return *p; } operator T*() const { return p; } void swap(scoped_refptr& o) { T* t = p; p = o.p; o.p = t; } void reset(T* x = nullptr) { *this = x; } bool operator!() const { return !p; } };
