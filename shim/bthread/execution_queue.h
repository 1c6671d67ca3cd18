#pragma once
#include <cstdint>
#include <deque>
#include <vector>
#include "bthread/types.h"
namespace bthread {
// tasks are kept in order and consumed when the harness runs the queue (shim_run_queues), or at stop
struct QueueBase { virtual ~QueueBase() {} virtual bool RunOnce() = 0; };
extern "C" void shim_register_queue(QueueBase*);
extern "C" void shim_queue_pushed(QueueBase*);
struct TaskOptions { bool high_priority = false, in_place_if_possible = false; TaskOptions() {} TaskOptions(bool a, bool b) : high_priority(a), in_place_if_possible(b) {} };
static const TaskOptions TASK_OPTIONS_NORMAL, TASK_OPTIONS_URGENT, TASK_OPTIONS_INPLACE;
struct ExecutionQueueOptions { bool use_pthread = false; bthread_attr_t bthread_attr{}; void* executor = nullptr; };
template <class T> class TaskIterator { std::deque<T>* q; bool stop_; T* curp; T cur; bool has;
 public: TaskIterator(std::deque<T>* q, bool stop) : q(q), stop_(stop) { next(); } void next() { has = !q->empty(); if (has) { cur = q->front(); q->pop_front(); } } explicit operator bool() const { return has; } TaskIterator& operator++() { next(); return *this; } TaskIterator& operator++(int) { next(); return *this; } T& operator*() { return cur; } T* operator->() { return &cur; } bool is_queue_stopped() const { return stop_; } };
template <class T> struct Queue : QueueBase { std::deque<T> q; int (*fn)(void*, TaskIterator<T>&); void* meta; bool stopped = false;
  bool RunOnce() override { if (q.empty()) return false; TaskIterator<T> it(&q, false); fn(meta, it); return true; } };
template <class T> struct ExecutionQueueId { uint64_t value = 0; Queue<T>* p = nullptr; };
template <class T> int execution_queue_start(ExecutionQueueId<T>* id, const ExecutionQueueOptions*, int (*fn)(void*, TaskIterator<T>&), void* meta) { auto* q = new Queue<T>(); q->fn = fn; q->meta = meta; id->p = q; id->value = 1; shim_register_queue(q); return 0; }
template <class T, class U> int execution_queue_execute(ExecutionQueueId<T> id, const U& t) { if (!id.p || id.p->stopped) return EINVAL; id.p->q.push_back(t); shim_queue_pushed(id.p); return 0; }
template <class T, class U> int execution_queue_execute(ExecutionQueueId<T> id, const U& t, const TaskOptions*) { return execution_queue_execute(id, t); }
template <class T> int execution_queue_stop(ExecutionQueueId<T> id) { if (!id.p) return EINVAL; id.p->stopped = true; return 0; }
template <class T> int execution_queue_join(ExecutionQueueId<T> id) { if (!id.p) return EINVAL; while (id.p->RunOnce()) {} TaskIterator<T> it(&id.p->q, true); id.p->fn(id.p->meta, it); return 0; }
}
