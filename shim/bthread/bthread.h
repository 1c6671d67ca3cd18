#pragma once
#include "bthread/types.h"
#include "bthread/mutex.h"
#include "bvar/bvar.h"
#include <cstddef>
extern "C" {
int bthread_stop(bthread_t);
int bthread_start_background(bthread_t* tid, const bthread_attr_t* attr, void* (*fn)(void*), void* args);
int bthread_start_urgent(bthread_t* tid, const bthread_attr_t* attr, void* (*fn)(void*), void* args);
int bthread_join(bthread_t tid, void** ret);
int bthread_usleep(uint64_t us);
bthread_t bthread_self();
int bthread_yield();
int bthread_timer_add(uint64_t* id, timespec abstime, void (*on_timer)(void*), void* arg);
int bthread_setconcurrency(int n);
int bthread_getconcurrency();
}
typedef uint64_t bthread_timer_t;
#define BRPC_COMMON_H
#include <climits>
