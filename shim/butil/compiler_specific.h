#pragma once
#define BAIDU_LIKELY(x) (x)
#define BAIDU_UNLIKELY(x) (x)
#define ALLOW_UNUSED __attribute__((unused))
#define WARN_UNUSED_RESULT
#define OVERRIDE override
#define BAIDU_CACHELINE_ALIGNMENT
#define DISALLOW_COPY_AND_ASSIGN(T) T(const T&) = delete; void operator=(const T&) = delete
#define BAIDU_REGISTER_ERRNO(a, b)
#ifndef likely
#define likely(x) (x)
#define unlikely(x) (x)
#endif
