#pragma once
#include "bthread/types.h"
#include "butil/atomicops.h"
#include "sym.h"
namespace bthread {
template <class T> T* butex_create_checked() { return (T*)calloc(1, sizeof(T)); }
inline void butex_destroy(void* b) { free(b); }
extern "C" int shim_butex_wait(void*, int); extern "C" int shim_butex_wake(void*, int all);
inline int butex_wake(void* b, bool = false) { return shim_butex_wake(b, 0); } inline int butex_wake_all(void* b, bool = false) { return shim_butex_wake(b, 1); }
inline int butex_wait(void* b, int v, const timespec*) { return shim_butex_wait(b, v); }
}
