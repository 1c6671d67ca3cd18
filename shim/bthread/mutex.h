#pragma once
#include <mutex>
#include <type_traits>
#include <bthread/types.h>
extern "C" {
int bthread_mutex_init(bthread_mutex_t* m, const bthread_mutexattr_t* a);
int bthread_mutex_destroy(bthread_mutex_t* m);
int bthread_mutex_lock(bthread_mutex_t* m);
int bthread_mutex_trylock(bthread_mutex_t* m);
int bthread_mutex_timedlock(bthread_mutex_t* m, const struct timespec*);
int bthread_mutex_unlock(bthread_mutex_t* m);
int bthread_cond_init(bthread_cond_t* c, const bthread_condattr_t* a);
int bthread_cond_destroy(bthread_cond_t* c);
int bthread_cond_signal(bthread_cond_t* c);
int bthread_cond_broadcast(bthread_cond_t* c);
int bthread_cond_wait(bthread_cond_t* c, bthread_mutex_t* m);
int bthread_cond_timedwait(bthread_cond_t* c, bthread_mutex_t* m, const struct timespec*);
}
namespace bthread {
class Mutex { public: Mutex() { bthread_mutex_init(&m, nullptr); } ~Mutex() { bthread_mutex_destroy(&m); } void lock() { bthread_mutex_lock(&m); } void unlock() { bthread_mutex_unlock(&m); } bool try_lock() { return bthread_mutex_trylock(&m) == 0; } bthread_mutex_t* native_handler() { return &m; } Mutex(const Mutex&) = delete; bthread_mutex_t m; };
typedef Mutex FastPthreadMutex; typedef Mutex RecursiveMutexX;
}
