#pragma once
#include "faiss/MetricType.h"
namespace faiss { template <MetricType M> struct VectorDistance { size_t d = 0; float metric_arg = 0; template <class T> float operator()(const T* x, const T* y) const { float s = 0; for (size_t i = 0; i < d; ++i) s += M == METRIC_L2 ? (float)(x[i] - y[i]) * (float)(x[i] - y[i]) : M == METRIC_HAMMING ? (float)(x[i] != y[i]) : (float)(x[i] * y[i]); return s; } }; }
