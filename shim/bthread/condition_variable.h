#pragma once
#include "bthread/mutex.h"
namespace bthread {
class ConditionVariable { public: bthread_cond_t c; ConditionVariable() { bthread_cond_init(&c, nullptr); } ~ConditionVariable() { bthread_cond_destroy(&c); } void wait(std::unique_lock<Mutex>& l) { bthread_cond_wait(&c, l.mutex()->native_handler()); } template <class P> void wait(std::unique_lock<Mutex>& l, P p) { while (!p()) wait(l); } int wait_for(std::unique_lock<Mutex>& l, long) { timespec t{}; return bthread_cond_timedwait(&c, l.mutex()->native_handler(), &t); } int wait_until(std::unique_lock<Mutex>& l, timespec t) { return bthread_cond_timedwait(&c, l.mutex()->native_handler(), &t); } void notify_one() { bthread_cond_signal(&c); } void notify_all() { bthread_cond_broadcast(&c); } };
}
