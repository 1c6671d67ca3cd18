// Default behaviour of the replaced third-party runtime.  Every hook is weak: a harness may define its own.
#include <cstring>
#include <cstdio>
#include <deque>
#include <map>
#include <string>
#include <vector>
#include "sym.h"
#include "symsched.h"
#include "bthread/types.h"
#include "bthread/execution_queue.h"
#define WEAK __attribute__((weak))
static std::vector<bthread::QueueBase*>* g_queues;
struct BgTask { void* (*fn)(void*); void* arg; };
struct TimerTask { uint64_t id; void (*fn)(void*); void* arg; };
static std::deque<TimerTask>* g_timers;
extern "C" {
WEAK void shim_fatal(const char* file, int line) { const char* b = file; for (const char* p = file; *p; ++p) if (*p == '/') b = p + 1; char m[160]; int k = 0; const char* pre = "process aborts: CHECK/FATAL in "; while (*pre) m[k++] = *pre++; while (*b && k < 140) m[k++] = *b++; m[k] = 0; sym_fail(m); }
// A strictly advancing clock by default (1 ms per reading); harnesses that care install their own.
int64_t shim_clock_us = 1700000000000000ll;
int64_t shim_clock_step_us = 1000;
WEAK void shim_rpc(void*, void*, const void*, void*) { }
WEAK const void* shim_method(const void*, const void*) { return nullptr; }
WEAK int64_t shim_now_us() { return shim_clock_us += shim_clock_step_us; }
WEAK uint64_t shim_rand() { return sym_u64("rand"); }
WEAK void shim_register_queue(bthread::QueueBase* q) { if (!g_queues) g_queues = new std::vector<bthread::QueueBase*>(); g_queues->push_back(q); }
WEAK void shim_queue_pushed(bthread::QueueBase*) {}
WEAK void shim_run_queues() { if (!g_queues) return; bool more = true; while (more) { more = false; for (size_t i = 0; i < g_queues->size(); ++i) if ((*g_queues)[i]->RunOnce()) more = true; } }
// background work runs at once on the caller's stack unless a concurrent section is active
static void bg_main(void* p) { BgTask* t = (BgTask*)p; t->fn(t->arg); }
WEAK int bthread_start_background(bthread_t* tid, const bthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (sched_active()) { BgTask* t = new BgTask{fn, arg}; int id = sched_spawn(bg_main, t); if (tid) *tid = (bthread_t)(id + 1); return 0; }
  if (tid) *tid = 1000; fn(arg); return 0;
}
WEAK int bthread_start_urgent(bthread_t* tid, const bthread_attr_t* a, void* (*fn)(void*), void* arg) { return bthread_start_background(tid, a, fn, arg); }
int bthread_yield();
WEAK int bthread_join(bthread_t tid, void**) { if (sched_active()) while (!sched_thread_done((int)tid - 1)) bthread_yield(); return 0; }
WEAK int bthread_stop(bthread_t) { return 0; }
WEAK int bthread_usleep(uint64_t us) { shim_clock_us += (int64_t)us; sched_yield_point(); return 0; }
WEAK int bthread_setconcurrency(int) { return 0; }
WEAK int bthread_getconcurrency() { return 4; }
WEAK int bthread_timer_add(uint64_t* id, timespec, void (*fn)(void*), void* arg) { if (!g_timers) g_timers = new std::deque<TimerTask>(); static uint64_t n = 0; ++n; if (id) *id = n; g_timers->push_back({n, fn, arg}); return 0; }
WEAK int bthread_timer_del(uint64_t id) { if (g_timers) for (auto it = g_timers->begin(); it != g_timers->end(); ++it) if (it->id == id) { g_timers->erase(it); return 0; } return 1; }
WEAK bool shim_run_timer() { if (!g_timers || g_timers->empty()) return false; TimerTask t = g_timers->front(); g_timers->pop_front(); t.fn(t.arg); return true; }
WEAK const char* berror(int) { return ""; }
WEAK int shim_pbfile_save(const char*, const void*) { return 0; }
WEAK int shim_pbfile_load(const char*, void*) { return -1; }
WEAK int shim_mkdirs(const char*) { return 0; }
WEAK int shim_path_exists(const char*) { return 0; }
WEAK int shim_rm(const char*) { return 0; }
WEAK void* shim_opendir(const char*) { return nullptr; }
WEAK const char* shim_readdir(void**) { return nullptr; }
}
#include <chrono>
#include <sys/time.h>
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::microseconds(shim_now_us()))); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::microseconds(shim_now_us()))); }
