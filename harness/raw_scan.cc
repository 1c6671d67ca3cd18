// C23: raw scan sessions (both protocol versions) page by page over any version history, while keys are written between the pages.
#include "raw_kv.h"
#include "realhash.h"
#include "scan/scan_manager.h"
using namespace raw;
static const std::string K[3] = {"b", std::string("b\0", 2), "c"}; static Hist H[3];
static Hist history(int maxv) { Hist h; int n = (int)sym_choice("versions", maxv + 1); for (int i = 0; i < n; ++i) { Ver v; v.ts = (int64_t)sym_in("ts", 1, 999); if (i) sym_assume(v.ts < h.back().ts); v.flag = (int)sym_choice("flag", 3); v.ttl = v.flag == 1 ? (int64_t)sym_in("ttl", 1, INT64_MAX) : 0; if (v.flag != 2) v.val = sym_str("val", 1); h.push_back(v); } return h; }
struct Row { std::string k, v; };
template <class P> static void rows(std::vector<Row>& o, const P& p) { for (int i = 0; i < p.kvs_size(); ++i) o.push_back({p.kvs(i).key(), p.kvs(i).value()}); }
struct Sess { bool v2; std::string id; int64_t id2 = 0; bool keep = false; int64_t ts = 0; std::string s, e; bool ws = true, we = false, key_only = false; int err = 0, last = 0; bool more = false; std::vector<Row> got;
  template <class Q> void range(Q& q, uint32_t n) { node::hdr(q, region); q.mutable_range()->mutable_range()->set_start_key(s); q.mutable_range()->mutable_range()->set_end_key(e); q.mutable_range()->set_with_start(ws); q.mutable_range()->set_with_end(we); q.set_max_fetch_cnt(n); q.set_key_only(key_only); q.set_disable_auto_release(keep); q.set_ts(ts); }
  bool begin(uint32_t n) { size_t b = got.size(); if (!v2) { pb::store::KvScanBeginRequest q; pb::store::KvScanBeginResponse p; range(q, n); q.set_disable_coprocessor(true); node::call(&StoreServiceImpl::KvScanBegin, q, p); err = p.error().errcode(); id = p.scan_id(); rows(got, p); } else { pb::store::KvScanBeginRequestV2 q; pb::store::KvScanBeginResponseV2 p; range(q, n); q.set_scan_id(id2); node::call(&StoreServiceImpl::KvScanBeginV2, q, p); err = p.error().errcode(); rows(got, p); } last = (int)(got.size() - b); return err == 0; }
  bool cont(uint32_t n) { size_t b = got.size(); if (!v2) { pb::store::KvScanContinueRequest q; pb::store::KvScanContinueResponse p; node::hdr(q, region); q.set_scan_id(id); q.set_max_fetch_cnt(n); node::call(&StoreServiceImpl::KvScanContinue, q, p); err = p.error().errcode(); rows(got, p); } else { pb::store::KvScanContinueRequestV2 q; pb::store::KvScanContinueResponseV2 p; node::hdr(q, region); q.set_scan_id(id2); q.set_max_fetch_cnt(n); node::call(&StoreServiceImpl::KvScanContinueV2, q, p); err = p.error().errcode(); rows(got, p); more = p.has_more(); } last = (int)(got.size() - b); return err == 0; }
  bool release() { if (!v2) { pb::store::KvScanReleaseRequest q; pb::store::KvScanReleaseResponse p; node::hdr(q, region); q.set_scan_id(id); node::call(&StoreServiceImpl::KvScanRelease, q, p); err = p.error().errcode(); } else { pb::store::KvScanReleaseRequestV2 q; pb::store::KvScanReleaseResponseV2 p; node::hdr(q, region); q.set_scan_id(id2); node::call(&StoreServiceImpl::KvScanReleaseV2, q, p); err = p.error().errcode(); } return err == 0; } };
static void change() { switch (sym_choice("between", 4)) { case 0: return; case 1: { pb::store::KvPutRequest q; pb::store::KvPutResponse p; node::hdr(q, region); q.mutable_kv()->set_key(K[sym_choice("which", 2)]); q.mutable_kv()->set_value("n"); node::call(&StoreServiceImpl::KvPut, q, p); break; }
  case 2: { pb::store::KvBatchDeleteRequest q; pb::store::KvBatchDeleteResponse p; node::hdr(q, region); q.add_keys(K[sym_choice("which", 2)]); node::call(&StoreServiceImpl::KvBatchDelete, q, p); break; }
  default: { pb::store::KvDeleteRangeRequest q; pb::store::KvDeleteRangeResponse p; node::hdr(q, region); q.mutable_range()->mutable_range()->set_start_key("b"); q.mutable_range()->mutable_range()->set_end_key("d"); q.mutable_range()->set_with_start(true); node::call(&StoreServiceImpl::KvDeleteRange, q, p); } } sym_cover("write between pages"); }
extern "C" void harness_main() {
  shim_clock_step_us = 0; make((int)sym_param("engine", 0)); int maxv = (int)sym_param("ver", 1);
  seed("a", {{5, 0, 0, "x"}}); for (int i = 0; i < 3; ++i) { H[i] = i == 1 && !sym_param("full", 0) ? (sym_flip("mid") ? Hist{{500, 0, 0, "m"}} : Hist()) : history(maxv); seed(K[i], H[i]); } seed("d", {{6, 0, 0, "y"}});
  Sess s; s.v2 = sym_param("v2", 0); s.id2 = 77; s.ts = sym_flip("at ts") ? (int64_t)sym_in("read", 1, 2000) : 0;
  static const struct { const char *s, *e; bool ws, we; } R[] = {{"b", "d", true, false}, {"b", "c", true, false}, {"b", "c", true, true}, {"b", "d", false, false}, {"c", "d", true, false}, {"b", "b", true, true}, {"c", "b", true, false}, {"a", "d", true, false}, {"b", "d", true, true}, {"b", "e", true, false}}; int ri = (int)sym_choice("range", sym_param("ranges", 10)); s.s = R[ri].s; s.e = R[ri].e; s.ws = R[ri].ws; s.we = R[ri].we; s.key_only = ri == 1 || (ri == 0 && sym_flip("key only"));
  std::vector<Row> want; bool inside = ri < 6; for (int i = 0; i < 3; ++i) { char c = K[i][0]; bool in = (s.ws ? K[i] >= s.s : c > s.s[0]) && (s.we ? c <= s.e[0] : K[i] < s.e); if (in) if (auto* v = visible(H[i], s.ts)) want.push_back({K[i], s.key_only ? std::string() : v->val}); }
  uint32_t n = (uint32_t)sym_choice("page", 3); s.keep = n == 1; bool ok = s.begin(n);
  if (!inside && ri != 6) { if (!ok) { sym_assert(s.got.empty(), "a refused scan returns nothing"); sym_cover("refused"); return; } if (ri != 7 && ri != 8 && ri != 9) return; want.clear(); for (int i = 0; i < 3; ++i) if (auto* v = visible(H[i], s.ts)) want.push_back({K[i], s.key_only ? std::string() : v->val}); }
  if (ri == 6) { sym_assert(s.got.empty(), "an empty range has no keys"); return; }
  sym_assert(ok, "a scan inside the region is accepted"); sym_assert(s.last <= (int)n, "a page has at most the requested number of keys");
  if (s.v2 && n == 2) { Sess o = s; o.got.clear(); sym_assert(!o.begin(1), "a scan id in use is refused"); }
  if (!s.v2) { Sess o = s; o.id = "none"; o.got.clear(); sym_assert(!o.cont(1) && o.got.empty(), "an unknown scan id is refused"); }
  int calls = 0; while (true) { if (calls == 0) change(); uint32_t m = calls ? 2 : 1 + (uint32_t)sym_choice("next", 2); sym_assert(s.cont(m), "a running scan goes on"); sym_assert(s.last <= (int)m, "a page has at most the requested number of keys"); ++calls; if (s.last > 0) sym_cover("several pages"); if (s.v2 ? !s.more : s.last == 0) break; if (calls > 6) sym_fail("a scan ends"); }
  sym_assert(s.got.size() == want.size(), "a scan returns every live key of the range exactly once"); for (size_t i = 0; i < want.size(); ++i) { sym_assert(s.got[i].k == want[i].k, "a scan returns the keys in order"); sym_assert(s.got[i].v == want[i].v, "a scan returns the values of one snapshot"); }
  sym_assert(s.release(), "a scan can be released"); { Sess o = s; o.got.clear(); if (!s.keep) { sym_assert(!o.cont(1) && o.got.empty(), "a released scan is gone"); } else sym_assert(!o.cont(1) || o.got.empty(), "a released scan returns nothing"); }
  Sess o = s; o.got.clear(); o.keep = false; if (o.begin(2)) { sym_assert(o.err == 0, ""); o.release(); } sym_cover("scanned");
}
