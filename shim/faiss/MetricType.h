#pragma once
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace faiss { typedef int64_t idx_t; enum MetricType { METRIC_INNER_PRODUCT = 0, METRIC_L2 = 1, METRIC_L1, METRIC_HAMMING = 50 };
struct IDSelector { virtual bool is_member(idx_t id) const = 0; virtual ~IDSelector() {} }; struct IDSelectorBatch : IDSelector { std::vector<idx_t> v; IDSelectorBatch(size_t n, const idx_t* p) : v(p, p + n) {} bool is_member(idx_t id) const override { for (idx_t x : v) if (x == id) return true; return false; } }; struct IDSelectorRange : IDSelector { idx_t a, b; IDSelectorRange(idx_t a, idx_t b, bool = false) : a(a), b(b) {} bool is_member(idx_t id) const override { return id >= a && id < b; } }; struct IDSelectorNot : IDSelector { const IDSelector* s; IDSelectorNot(const IDSelector* s) : s(s) {} bool is_member(idx_t id) const override { return !s->is_member(id); } }; struct IDSelectorArray : IDSelector { size_t n; const idx_t* ids; IDSelectorArray(size_t n, const idx_t* i) : n(n), ids(i) {} bool is_member(idx_t id) const override { for (size_t i = 0; i < n; i++) if (ids[i] == id) return true; return false; } };
struct SearchParameters { IDSelector* sel = nullptr; virtual ~SearchParameters() {} }; struct RangeSearchResult { size_t nq; size_t* lims = nullptr; idx_t* labels = nullptr; float* distances = nullptr; RangeSearchResult(size_t n) : nq(n) {} }; struct Index { virtual ~Index() {} int d = 0; idx_t ntotal = 0; MetricType metric_type = METRIC_L2; bool is_trained = true; }; struct IndexBinary { virtual ~IndexBinary() {} }; struct IndexFlat : Index {}; struct IndexFlatL2 : IndexFlat {}; struct IndexFlatIP : IndexFlat {}; struct IndexIDMap : Index {}; struct IndexIDMap2 : Index {}; struct IndexIVFFlat : Index {}; struct IndexIVFPQ : Index {}; struct IndexBinaryFlat : IndexBinary {}; struct IndexBinaryIVF : IndexBinary {}; struct IndexBinaryIDMap : IndexBinary {}; struct IndexBinaryIDMap2 : IndexBinary {};
float fvec_L2sqr(const float*, const float*, size_t); float fvec_inner_product(const float*, const float*, size_t); float fvec_norm_L2sqr(const float*, size_t); }
