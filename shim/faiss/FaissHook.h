#pragma once
#include "faiss/MetricType.h"
namespace faiss { template <class F> void set_fvec_L2sqr_hook(F) {} template <class F> void set_fvec_inner_product_hook(F) {} }
