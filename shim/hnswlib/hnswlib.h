#pragma once
#include <queue>
#include <functional>
// Declarations only: approximate-nearest-neighbour graphs live in an external library that is not in this repository.
namespace hnswlib { typedef size_t labeltype; template <class T> struct SpaceInterface { virtual ~SpaceInterface() {} }; template <class T> class HierarchicalNSW; struct BaseFilterFunctor { virtual ~BaseFilterFunctor() {} virtual bool operator()(labeltype) { return true; } };
struct L2Space : SpaceInterface<float> { size_t d; L2Space(size_t d) : d(d) {} }; struct InnerProductSpace : SpaceInterface<float> { InnerProductSpace(size_t) {} };
template <class F> void set_fvec_L2sqr_hook(F) {} template <class F> void set_fvec_inner_product_hook(F) {} }
