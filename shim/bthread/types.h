#pragma once
#include <cerrno>
#include <cstdint>
#include <ctime>
typedef uint64_t bthread_t; struct bthread_attr_t { int stack_type, flags; }; struct bthread_key_t { int x; };
static const bthread_t INVALID_BTHREAD = 0;
static const bthread_attr_t BTHREAD_ATTR_NORMAL = {0, 0}, BTHREAD_ATTR_SMALL = {0, 0}, BTHREAD_ATTR_LARGE = {0, 0}, BTHREAD_ATTR_PTHREAD = {0, 0};
// state: number of holders (0 or 1)
struct bthread_mutex_t { int locked; int owner; }; struct bthread_mutexattr_t {}; struct bthread_condattr_t {};
struct bthread_cond_t { unsigned waiters, seq, wake; };
