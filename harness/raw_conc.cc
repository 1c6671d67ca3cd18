// C13: raw key-value requests running at the same time on one store node.
#include <functional>
#include "raw_kv.h"
#include "realhash.h"
using namespace raw;
static const std::string B = "b", C = "c";
typedef std::vector<std::string> Out; typedef std::function<Out()> Req;
static std::vector<std::vector<Req>> prog; static std::vector<std::vector<Out>> got; static mem::Tables tab0; static int64_t tso0; static std::string v0, v1;
static std::string val(const std::string& k) { auto h = look(k); auto* v = visible(h, 0); return v ? v->val : "-"; }
struct End { std::vector<std::vector<Out>> o; std::string b, c; };
static void reset() { w.n->raw->tabs = tab0; tso = tso0; region = add_region(1, "b", "d"); got.assign(prog.size(), {}); }
static End end() { return {got, val(B), val(C)}; }
static void run_serial(std::vector<size_t> at, std::vector<End>& out, std::vector<int> order) { bool fin = true; for (size_t t = 0; t < prog.size(); ++t) if (at[t] < prog[t].size()) { fin = false; auto n = at; n[t]++; auto o = order; o.push_back((int)t); run_serial(n, out, o); } if (!fin) return; reset(); for (int t : order) { size_t i = got[t].size(); got[t].push_back(prog[t][i]()); } out.push_back(end()); }
static std::string st(bool b) { return b ? "1" : "0"; }
static Req put(std::vector<std::string> ks, const char* v) { return [=] { pb::store::KvBatchPutRequest q; pb::store::KvBatchPutResponse p; node::hdr(q, region); for (auto& k : ks) { auto* kv = q.add_kvs(); kv->set_key(k); kv->set_value(v); } node::call(&StoreServiceImpl::KvBatchPut, q, p); return Out{st(p.error().errcode() == 0)}; }; }
static Req put1(const std::string& k, const char* v) { return [=] { pb::store::KvPutRequest q; pb::store::KvPutResponse p; node::hdr(q, region); q.mutable_kv()->set_key(k); q.mutable_kv()->set_value(v); node::call(&StoreServiceImpl::KvPut, q, p); return Out{st(p.error().errcode() == 0)}; }; }
static Req pia(std::vector<std::string> ks, const char* v, bool atomic) { return [=] { pb::store::KvBatchPutIfAbsentRequest q; pb::store::KvBatchPutIfAbsentResponse p; node::hdr(q, region); for (auto& k : ks) { auto* kv = q.add_kvs(); kv->set_key(k); kv->set_value(v); } q.set_is_atomic(atomic); node::call(&StoreServiceImpl::KvBatchPutIfAbsent, q, p); Out o; for (bool b : p.key_states()) o.push_back(st(b)); return o; }; }
static Req pia1(const std::string& k, const char* v) { return [=] { pb::store::KvPutIfAbsentRequest q; pb::store::KvPutIfAbsentResponse p; node::hdr(q, region); q.mutable_kv()->set_key(k); q.mutable_kv()->set_value(v); node::call(&StoreServiceImpl::KvPutIfAbsent, q, p); return Out{st(p.key_state())}; }; }
static Req cas(std::vector<std::string> ks, const std::string& e, const char* v, bool atomic) { return [=] { pb::store::KvBatchCompareAndSetRequest q; pb::store::KvBatchCompareAndSetResponse p; node::hdr(q, region); for (auto& k : ks) { auto* kv = q.add_kvs(); kv->set_key(k); kv->set_value(v); q.add_expect_values(e); } q.set_is_atomic(atomic); node::call(&StoreServiceImpl::KvBatchCompareAndSet, q, p); Out o{st(p.error().errcode() == 0)}; for (bool b : p.key_states()) o.push_back(st(b)); return o; }; }
static Req cas1(const std::string& k, const std::string& e, const char* v) { return [=] { pb::store::KvCompareAndSetRequest q; pb::store::KvCompareAndSetResponse p; node::hdr(q, region); q.mutable_kv()->set_key(k); q.mutable_kv()->set_value(v); q.set_expect_value(e); node::call(&StoreServiceImpl::KvCompareAndSet, q, p); return Out{st(p.error().errcode() == 0), st(p.key_state())}; }; }
static Req del(std::vector<std::string> ks) { return [=] { pb::store::KvBatchDeleteRequest q; pb::store::KvBatchDeleteResponse p; node::hdr(q, region); for (auto& k : ks) q.add_keys(k); node::call(&StoreServiceImpl::KvBatchDelete, q, p); Out o; for (bool b : p.key_states()) o.push_back(st(b)); return o; }; }
static Req delrange() { return [=] { pb::store::KvDeleteRangeRequest q; pb::store::KvDeleteRangeResponse p; node::hdr(q, region); q.mutable_range()->mutable_range()->set_start_key("b"); q.mutable_range()->mutable_range()->set_end_key("d"); q.mutable_range()->set_with_start(true); node::call(&StoreServiceImpl::KvDeleteRange, q, p); return Out{st(p.error().errcode() == 0)}; }; }
static Req get(const std::string& k) { return [=] { pb::store::KvGetRequest q; pb::store::KvGetResponse p; node::hdr(q, region); q.set_key(k); node::call(&StoreServiceImpl::KvGet, q, p); return Out{p.value()}; }; }
static Req scan() { return [=] { pb::store::KvScanBeginRequest q; pb::store::KvScanBeginResponse p; node::hdr(q, region); q.mutable_range()->mutable_range()->set_start_key("b"); q.mutable_range()->mutable_range()->set_end_key("d"); q.mutable_range()->set_with_start(true); q.set_max_fetch_cnt(9); q.set_disable_coprocessor(true); node::call(&StoreServiceImpl::KvScanBegin, q, p); Out o; for (int i = 0; i < p.kvs_size(); ++i) { o.push_back(p.kvs(i).key()); o.push_back(p.kvs(i).value()); } return o; }; }
extern "C" void harness_main() {
  shim_clock_step_us = 0; make((int)sym_param("engine", 0)); v0 = sym_str("v0", 1); v1 = sym_str("v1", 1);
  auto has = [&](const std::string& k, const std::string& v) { seed(k, {{(int64_t)sym_in("ts", 1, 999), 0, 0, v}}); };
  switch (sym_param("pair", 0)) {
    case 0: has(B, v0); prog = {{cas1(B, v1, "x")}, {cas1(B, v1, "y")}}; break;
    case 1: prog = {{pia1(B, "x")}, {pia({C, B}, "y", false)}}; break;
    case 2: if (sym_flip("there")) has(B, v0); prog = {{pia({B, C}, "x", true)}, {pia({C, B}, "y", true)}}; break;
    case 3: has(B, v0); has(C, v0); prog = {{cas({B, C}, v1, "x", true)}, {cas({C, B}, v1, "y", true)}}; break;
    case 4: has(B, v0); prog = {{cas({B, C}, v1, "x", false)}, {del({B}), pia1(B, "z")}}; break;
    case 5: has(B, v0); has(C, v0); prog = {{put({B, C}, "x")}, {scan()}}; break;
    case 6: prog = {{put({B, C}, "x")}, {put({C, B}, "y")}}; break;
    case 7: has(B, v0); prog = {{del({B})}, {cas1(B, v1, "y"), get(B)}}; break;
    case 8: prog = {{put1(B, "x")}, {pia1(B, "y"), get(B)}}; break;
    case 9: has(B, v0); prog = {{del({B, C})}, {pia({B, C}, "y", true)}}; break;
    case 10: has(B, v0); prog = {{delrange()}, {cas1(B, v1, "y")}}; break;
    case 11: has(B, v0); has(C, v1); prog = {{delrange()}, {put({B, C}, "x"), scan()}}; break;
    case 12: has(B, v0); prog = {{put1(B, "x")}, {cas1(B, v1, "y")}}; break;
    case 13: has(B, v0); prog = {{put1(B, "x"), get(B)}, {del({C, B})}}; break;
  }
  tab0 = w.n->raw->tabs; tso0 = tso; std::vector<End> all; run_serial(std::vector<size_t>(prog.size(), 0), all, {});
  reset(); sched_init((int)sym_param("preempt", 2)); static std::vector<size_t> ids; ids.clear(); for (size_t t = 0; t < prog.size(); ++t) ids.push_back(t);
  for (size_t t = 0; t < prog.size(); ++t) sched_spawn([](void* p) { size_t t = *(size_t*)p; for (auto& r : prog[t]) { Out o = r(); got[t].push_back(o); } }, &ids[t]);
  sched_join_all(); End c = end(); bool any = false; for (auto& e : all) { bool r = (c.b == e.b) & (c.c == e.c); for (size_t t = 0; t < c.o.size(); ++t) for (size_t i = 0; i < c.o[t].size(); ++i) { if (c.o[t][i].size() != e.o[t][i].size()) { r = false; continue; } for (size_t j = 0; j < c.o[t][i].size(); ++j) r = r & (c.o[t][i][j] == e.o[t][i][j]); } any = any | r; }
  sym_assert(any, sym_param("pair", 0) == 10 ? "a compare-and-set next to a range delete takes effect before or after it" : "raw requests that run at the same time have the effect of some order of them, one at a time"); sym_cover("ran");
}
