#include "symsched.h"
#include "sym.h"
#include <cerrno>
#include <cstring>
#include <ctime>
#include "bthread/types.h"
namespace {
const int kMax = 8;
struct Thr { void (*fn)(void*); void* arg; bool used, done; const void* wait; int cid; };
Thr T[kMax]; int nT = 1, cur = 0, budget = 0; bool active = false;
int idle = 0; char pause_tok; const int kIdle = 12;
bool wake_paused() { bool any = false; for (int i = 0; i < nT; i++) if (T[i].used && !T[i].done && T[i].wait == &pause_tok) { T[i].wait = nullptr; any = true; } return any; }
struct Range { uintptr_t lo, hi; }; Range W[32]; int nW = 0;
void switch_to(int t) { if (t == cur) return; cur = t; sym_thread_switch(T[t].cid); }
// the current thread cannot (or does not want to) go on: pick any runnable one
void pick(bool me_ok) {
  int r[kMax], n = 0;
  if (me_ok) r[n++] = cur;
  for (int i = 0; i < nT; i++) if (i != cur && T[i].used && !T[i].done && !T[i].wait) r[n++] = i;
  if (n == 0 && wake_paused()) {
    if (++idle > kIdle) sym_fail("a thread waits for something that never happens");
    for (int i = 0; i < nT; i++) if (T[i].used && !T[i].done && !T[i].wait) r[n++] = i;
  }
  if (n == 0) {
    if (T[0].wait == (const void*)&T[0] ) { bool all = true; for (int i = 1; i < nT; i++) if (!T[i].done) all = false; if (all) { T[0].wait = nullptr; switch_to(0); return; } }
    sym_fail("deadlock: every unfinished thread waits for something nobody will signal");
  }
  int k = n == 1 ? 0 : (int)sym_choice("sched", n);
  switch_to(r[k]);
}
void thread_main(void* a) { Thr* t = (Thr*)a; t->fn(t->arg); t->done = true; pick(false); sym_fail("finished thread was resumed"); }
}
extern "C" {
void sched_init(int preemptions) { for (auto& t : T) t = Thr(); T[0].used = true; nT = 1; cur = 0; budget = preemptions; active = false; nW = 0; idle = 0; }
int sched_spawn(void (*fn)(void*), void* arg) {
  if (nT >= kMax) sym_unsupported("too many threads");
  if (!T[0].used) sched_init(0);
  int id = nT++; T[id].fn = fn; T[id].arg = arg; T[id].used = true; T[id].done = false; T[id].wait = nullptr; T[id].cid = sym_thread_new(thread_main, &T[id]); return id;
}
void sched_join_all() { active = true; T[0].wait = &T[0]; pick(false); active = false; T[0].wait = nullptr; }
bool sched_active() { return active; }
int sched_self() { return cur; }
bool sched_thread_done(int id) { return T[id].done; }
void sched_yield_point() {
  if (!active || budget <= 0) return;
  int others = 0; for (int i = 0; i < nT; i++) if (i != cur && T[i].used && !T[i].done && !T[i].wait) others++;
  if (!others) return;
  int before = cur;
  int r[kMax], n = 0; r[n++] = cur; for (int i = 0; i < nT; i++) if (i != cur && T[i].used && !T[i].done && !T[i].wait) r[n++] = i;
  int k = (int)sym_choice("sched", n); if (r[k] != before) { budget--; switch_to(r[k]); }
}
void sched_block(const void* on) { if (!active) sym_fail("deadlock: blocking wait outside a concurrent section"); T[cur].wait = on; pick(false); }
// sleep: let the others run until something was written (sched_progress) or nobody else can run
void sched_pause() { if (!active) { if (++idle > kIdle) sym_fail("a thread waits for something that never happens"); return; } T[cur].wait = &pause_tok; pick(false); }
void sched_progress() { idle = 0; if (active) wake_paused(); }
int sched_wake(const void* on, int all) { int n = 0; for (int i = 0; i < nT; i++) if (T[i].used && !T[i].done && T[i].wait == on) { T[i].wait = nullptr; n++; if (!all) break; } return n; }
void sched_watch(const void* p, size_t n) { if (nW >= 32) sym_unsupported("too many watched ranges"); W[nW++] = {(uintptr_t)p, (uintptr_t)p + n}; }
void sched_unwatch_all() { nW = 0; }
// ---- bthread synchronisation
// bthread_mutex_t: first word = 1 + owner thread when held
static int* word(void* m) { return (int*)m; }
int bthread_mutex_init(bthread_mutex_t* m, const bthread_mutexattr_t*) { *word(m) = 0; return 0; }
int bthread_mutex_destroy(bthread_mutex_t* m) { return 0; }
int bthread_mutex_lock(bthread_mutex_t* m) {
  sched_yield_point();
  while (*word(m)) { if (*word(m) == 1 + cur) sym_fail("deadlock: mutex locked twice by the same thread"); sched_block(m); }
  *word(m) = 1 + cur; return 0;
}
int bthread_mutex_trylock(bthread_mutex_t* m) { sched_yield_point(); if (*word(m)) return EBUSY; *word(m) = 1 + cur; return 0; }
int bthread_mutex_timedlock(bthread_mutex_t* m, const struct timespec*) { return bthread_mutex_lock(m); }
int bthread_mutex_unlock(bthread_mutex_t* m) {
  if (*word(m) != 1 + cur) sym_fail("mutex unlocked by a thread that does not hold it");
  *word(m) = 0; sched_wake(m, 1); sched_yield_point(); return 0;
}
int bthread_cond_init(bthread_cond_t* c, const bthread_condattr_t*) { return 0; }
int bthread_cond_destroy(bthread_cond_t*) { return 0; }
int bthread_cond_signal(bthread_cond_t* c) { sched_wake(c, 0); sched_yield_point(); return 0; }
int bthread_cond_broadcast(bthread_cond_t* c) { sched_wake(c, 1); sched_yield_point(); return 0; }
int bthread_cond_wait(bthread_cond_t* c, bthread_mutex_t* m) {
  if (*word(m) != 1 + cur) sym_fail("condition wait without holding the mutex");
  *word(m) = 0; sched_wake(m, 1); sched_block(c);
  while (*word(m)) sched_block(m);
  *word(m) = 1 + cur; return 0;
}
int bthread_cond_timedwait(bthread_cond_t* c, bthread_mutex_t* m, const struct timespec*) {
  if (active && sym_flip("timeout")) { *word(m) = 0; sched_wake(m, 1); sched_yield_point(); while (*word(m)) sched_block(m); *word(m) = 1 + cur; return ETIMEDOUT; }
  if (!active) return ETIMEDOUT;
  return bthread_cond_wait(c, m);
}
int shim_butex_wait(void* b, int v) { sched_yield_point(); if (*(volatile int*)b != v) { errno = EWOULDBLOCK; return -1; } sched_block(b); return 0; }
int shim_butex_wake(void* b, int all) { int n = sched_wake(b, all); sched_yield_point(); return n; }
bthread_t bthread_self() { return (bthread_t)(cur + 1); }
int bthread_yield() { sched_yield_point(); return 0; }
// ---- memory-access instrumentation (code compiled with -fsanitize=thread): watched accesses are preemption points
#ifdef TRACK_FREE   // replay with the sanitizer's allocator, whose access checks the thread instrumentation replaces
int __asan_address_is_poisoned(const void*);
#define LIVE(p) if (__asan_address_is_poisoned(p)) sym_fail("use of freed memory")
#else
#define LIVE(p)
#endif
int steps = 0, step_limit = 0;   // memory accesses of the instrumented code
void sched_step_limit(int n) { steps = 0; step_limit = n; }
static inline void acc(const void* p) {
  if (step_limit && ++steps > step_limit) sym_fail("a loop that does not end");
  if (active && budget > 0) { uintptr_t a = (uintptr_t)p; for (int i = 0; i < nW; i++) if (a >= W[i].lo && a < W[i].hi) { sched_yield_point(); break; } }
  LIVE(p);
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void**) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { acc(p); } void __tsan_write##n(void* p) { acc(p); } void __tsan_unaligned_read##n(void* p) { acc(p); } void __tsan_unaligned_write##n(void* p) { acc(p); } void __tsan_read_write##n(void* p) { acc(p); } void __tsan_unaligned_read_write##n(void* p) { acc(p); } void __tsan_volatile_read##n(void* p) { acc(p); } void __tsan_volatile_write##n(void* p) { acc(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { acc(p); }
void __tsan_write_range(void* p, unsigned long) { acc(p); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { acc(d); acc(s); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc(d); acc(s); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { acc(d); return memset(d, c, n); }
#define AT(n, t) \
  t __tsan_atomic##n##_load(const volatile t* p, int) { acc((const void*)p); return *p; } \
  void __tsan_atomic##n##_store(volatile t* p, t v, int) { acc((const void*)p); *p = v; } \
  t __tsan_atomic##n##_exchange(volatile t* p, t v, int) { acc((const void*)p); t o = *p; *p = v; return o; } \
  t __tsan_atomic##n##_fetch_add(volatile t* p, t v, int) { acc((const void*)p); t o = *p; *p = (t)(o + v); return o; } \
  t __tsan_atomic##n##_fetch_sub(volatile t* p, t v, int) { acc((const void*)p); t o = *p; *p = (t)(o - v); return o; } \
  t __tsan_atomic##n##_fetch_and(volatile t* p, t v, int) { acc((const void*)p); t o = *p; *p = (t)(o & v); return o; } \
  t __tsan_atomic##n##_fetch_or(volatile t* p, t v, int) { acc((const void*)p); t o = *p; *p = (t)(o | v); return o; } \
  t __tsan_atomic##n##_fetch_xor(volatile t* p, t v, int) { acc((const void*)p); t o = *p; *p = (t)(o ^ v); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile t* p, t* e, t v, int, int) { acc((const void*)p); t o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile t* p, t* e, t v, int, int) { acc((const void*)p); t o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
  t __tsan_atomic##n##_compare_exchange_val(volatile t* p, t e, t v, int, int) { acc((const void*)p); t o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
