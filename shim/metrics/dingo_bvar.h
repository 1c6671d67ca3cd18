// Metrics registry replacement: nothing in the checked behaviour reads metrics back.
#pragma once
#include "bvar/bvar.h"
namespace dingodb {
constexpr int64_t MAX_MULTI_DIMENSION_STATS_COUNT = 100000;
template <class T> using DingoMultiDimension = bvar::MultiDimension<T>;
}
