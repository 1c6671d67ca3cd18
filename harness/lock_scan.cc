// Finding and resolving the locks of a region page by page.
#include "txn.h"
namespace dingodb { DECLARE_int64(stream_message_max_limit_size); }
using namespace txn;
static std::vector<std::string> K = {"b", "bb", "d", "e"};
static txn::Lock any_lock(const std::string& k, bool big) { txn::Lock l; int kind = (int)sym_choice("lock_kind", 4); if (!kind) return l; l.on = true; l.ts = ts_var("lock_ts"); l.type = kind == 1 ? kPut : kind == 2 ? kDelete : kLock; l.ttl = (int64_t)sym_in("ttl", 0, 1 << 20); l.primary = "p"; if (l.type == kLock) l.fut = l.ts; if (l.type == kPut) { l.value = val("lock_val", big && sym_flip("lock_big")); l.async = sym_flip("async"); if (l.async) l.min_commit = l.ts + 1; } seed_lock(k, l); return l; }
struct Page { pb::store::TxnScanLockResponse p; bool ok; };
static Page page(const std::string& a, const std::string& b, int64_t max_ts, int limit, const std::string& sid) { pb::store::TxnScanLockRequest q; node::hdr(q, region); q.set_max_ts(max_ts); q.set_start_key(a); q.set_end_key(b); if (sym_param("meta", 1)) q.mutable_stream_meta()->set_limit(limit); else q.set_limit(limit); if (!sid.empty()) q.mutable_stream_meta()->set_stream_id(sid); Page r; node::call(&StoreServiceImpl::TxnScanLock, q, r.p); r.ok = r.p.error().errcode() == 0; return r; }
static bool truthful(const pb::store::LockInfo& i, const txn::Lock& l) { return (i.lock_ts() == l.ts) & ((int)i.lock_type() == l.type) & ((int64_t)i.lock_ttl() == l.ttl) & (i.primary_lock() == l.primary) & (i.use_async_commit() == l.async) & (i.min_commit_ts() == l.min_commit) & (i.for_update_ts() == l.fut); }
static void part_scan() {
  K.resize(sym_param("keys", 3)); std::vector<txn::Lock> L; for (auto& k : K) L.push_back(any_lock(k, false)); mem::Tables t0 = node::cur->raw->tabs;
  int64_t max_ts = ts_var("max_ts"); static const char* R[] = {"a", "b", "bb", "c", "d", "z"}; int ra = (int)sym_choice("from", 5), rb = ra + 1 + (int)sym_choice("to", 5 - ra); std::string a = R[ra], b = R[rb];
  int limit = 1 + (int)sym_choice("limit", 3); std::string sid; std::vector<pb::store::LockInfo> got; int n = 0; bool more = true;
  while (more) { if (++n > (int)K.size() + 1) sym_fail("a lock scan ends"); Page r = page(a, b, max_ts, limit, sid); if (!r.ok) sym_fail("a lock scan page is answered"); if ((int)r.p.locks_size() > limit) sym_fail("a page holds at most the limit"); more = r.p.has_more(); if (r.p.stream_meta().has_more() != more) sym_fail("both more-markers agree"); if (more && r.p.locks_size() == 0) sym_fail("a page that is not the last holds a lock"); for (auto& l : r.p.locks()) got.push_back(l); sid = r.p.stream_meta().stream_id(); if (sid.empty()) sym_fail("a page names its stream");
    if (more && n == 1) { sym_cover("second page"); if (sym_flip("new_lock_between")) { txn::Lock l; l.on = true; l.ts = 1; l.type = kDelete; l.primary = "p"; pb::store::LockInfo i; i.set_primary_lock("p"); i.set_lock_ts(1); i.set_key("c"); i.set_lock_type(pb::store::Delete); mem::put(node::cur->raw->tabs.mut(LockCF()), ek("c", Constant::kLockVer), i.SerializeAsString()); } } }
  size_t g = 0; for (auto& x : got) if (x.key() == "c") sym_cover("saw the new lock");
  for (size_t i = 0; i < K.size(); ++i) { if (!L[i].on || K[i] < a || K[i] >= b || !sym_fork(L[i].ts < max_ts)) continue; while (g < got.size() && got[g].key() == "c") ++g; if (g >= got.size()) sym_fail("every lock of the range older than the bound is reported"); sym_assert(got[g].key() == K[i], "locks are reported once, in key order"); sym_assert(truthful(got[g], L[i]), "a reported lock is the stored one"); ++g; sym_cover("reported"); }
  while (g < got.size() && got[g].key() == "c") ++g; sym_assert(g == got.size(), "nothing but the locks of the range older than the bound is reported");
  if (n > 1 || !more) { Page r = page(a, b, max_ts, limit, sid); sym_assert(!r.ok, "a finished scan cannot be continued"); }
  Page bad = page(a, b, max_ts, limit, "unknown"); sym_assert(!bad.ok && bad.p.error().errcode() == pb::error::ESTREAM_EXPIRED, "an unknown stream is refused"); sym_observe("n", n); sym_observe("got", got.size()); }
static void part_resolve() {   // of a whole region, with the page size forced to one or two
  K.resize(sym_param("keys", 3)); std::vector<KeyState> b; static const std::vector<int> kinds = {0, 1, 2}; for (auto& k : K) { KeyState s; s.lock = any_lock(k, true); b.push_back(s); }
  FLAGS_stream_message_max_limit_size = 1 + (int)sym_choice("page", 2); int64_t ts = ts_var("start_ts"), cts = sym_flip("commit") ? ts_var("commit_ts") : 0; if (cts) sym_assume(cts > ts); for (auto& s : b) if (s.lock.on && s.lock.min_commit && cts) sym_assume(cts >= s.lock.min_commit);
  Resolve r; r.ts = ts; r.cts = cts; r.infos = {{ts, cts}}; r.run(); bool pess = false; for (auto& s : b) if (s.lock.on && s.lock.type == kLock && sym_fork(s.lock.ts == ts)) pess = true;
  if (pess) { sym_cover("stopped at a pessimistic lock"); sym_assert(!r.ok, "a resolve that leaves locks behind says so"); } else sym_assert(r.ok, "a resolve succeeds");
  for (size_t i = 0; i < K.size(); ++i) { KeyState a = look(K[i]); bool mine = b[i].lock.on && sym_fork(b[i].lock.ts == ts);
    if (!mine) { sym_assert(same(a, b[i]), "a resolve leaves the locks of other transactions alone"); continue; }
    if (pess && a.lock.on) { sym_assert(same(a, b[i]), "a lock left behind is unchanged"); continue; }
    sym_cover(cts ? "committed" : "rolled back"); sym_assert(!a.lock.on, "a resolve removes every lock of the transaction"); sym_assert(a.recs.size() == 1, "a resolve records the outcome"); Rec& w = a.recs[0];
    if (cts) { sym_assert((w.cts == cts) & (w.sts == ts) & (w.op == b[i].lock.type), "a resolve commits every lock at the commit timestamp"); if (w.op == kPut) sym_assert(w.value == b[i].lock.value, "a resolve keeps the value"); } else sym_assert((w.op == kRollback) & (w.sts == ts), "a resolve rolls every lock back"); }
  sym_observe("ok", r.ok); }
extern "C" void harness_main() { FLAGS_max_short_value_in_write_cf = 1; node::make(); region = node::add_region(*node::cur, 1, "a", "z"); if (sym_param("part", 0)) part_resolve(); else part_scan(); }
