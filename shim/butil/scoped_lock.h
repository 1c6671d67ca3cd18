#pragma once
#include <mutex>
#include "bthread/mutex.h"
#include "butil/compiler_specific.h"
#include "butil/atomicops.h"
namespace butil { namespace shim {
template <class M> struct Scoped { M& m; explicit Scoped(M& m) : m(m) { m.lock(); } ~Scoped() { m.unlock(); } Scoped(const Scoped&) = delete; };
template <> struct Scoped<bthread_mutex_t> { bthread_mutex_t& m; explicit Scoped(bthread_mutex_t& m) : m(m) { bthread_mutex_lock(&m); } ~Scoped() { bthread_mutex_unlock(&m); } Scoped(const Scoped&) = delete; };
} }
#define SHIM_SL2(a, b) a##b
#define SHIM_SL(a, b) SHIM_SL2(a, b)
#define BAIDU_SCOPED_LOCK(m) ::butil::shim::Scoped<typename std::remove_const<typename std::remove_reference<decltype(m)>::type>::type> SHIM_SL(shim_sl_, __LINE__)(const_cast<typename std::remove_const<typename std::remove_reference<decltype(m)>::type>::type&>(m))
namespace butil { typedef std::mutex Lock; typedef std::mutex Mutex; template <class L> struct AutoLockT { L& l; explicit AutoLockT(L& l) : l(l) { l.lock(); } ~AutoLockT() { l.unlock(); } }; }
