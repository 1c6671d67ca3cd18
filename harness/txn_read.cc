// Reads of a snapshot (get, batch get, scan over several calls) against arbitrary protocol states of two keys, with a write between two scan calls.
#include "txn.h"
using namespace txn;
static int64_t T; static bool rc; static std::vector<int64_t> resolved;
struct Want { bool must = false, may = false; bool on = false; std::string value; };
static Want want(const KeyState& s) {
  Want w; const txn::Lock& l = s.lock; bool skip = false; for (auto r : resolved) if (l.on && sym_fork(r == l.ts)) skip = true;
  if (l.on && !skip) { bool data = l.type == kPut || l.type == kDelete; int64_t base = l.fut > l.ts ? l.fut : l.ts;
    if (rc) w.may = true; else if (data) { bool can = sym_fork((base < T) & (l.min_commit <= T)); w.must = can; w.may = can; } else w.may = sym_fork(l.ts <= T); }
  for (auto& r : s.recs) if (r.op != kRollback && (rc || sym_fork(r.cts <= T))) { if (r.op == kPut) { w.on = true; w.value = r.value; } break; }
  return w; }
static const std::string A = "k", B = "m";
static KeyState a, b; static Want wa, wb;
static void setup(int keys) {
  node::make(); region = node::add_region(*node::cur, 1, "a", "z");
  int recs = (int)sym_param("recs", 1), locks = (int)sym_param("locks", 4); bool big = sym_param("big", 0) != 0;
  a = any_key(A, A, recs, locks, big); if (keys > 1) b = any_key(B, A, recs, (int)sym_param("locks2", locks), big);
  T = ts_var("start_ts"); rc = sym_param("rc", 0) != 0; if (sym_param("resolved", 0) && sym_flip("has_resolved")) resolved = {ts_var("resolved_ts")};
  wa = want(a); if (keys > 1) wb = want(b); }
static void noted() { sym_assert(region->TxnAccessMaxTs() >= T, "a served snapshot timestamp is remembered (later one-phase and async commits are ordered after it)"); }
static void check_get() {
  Get g; g.ts = T; g.key = A; g.rc = rc; g.resolved = resolved; g.run(); noted();
  if (g.locked) { sym_assert(wa.may, "a read is blocked only by a lock that may commit inside its snapshot"); sym_assert(g.p.txn_result().locked().lock_ts() == a.lock.ts, "the blocking lock is the one reported"); sym_assert(g.value.empty(), "a blocked read returns no data"); sym_cover("blocked"); return; }
  sym_assert(!wa.must, "a read does not pass a lock that may commit inside its snapshot"); sym_assert(g.ok, "an unblocked read succeeds");
  sym_assert(g.value == (wa.on ? wa.value : std::string()), "a read returns the newest version committed at or before its timestamp"); sym_cover(wa.on ? "value" : "absent"); }
static void check_batch() {
  BatchGet g; g.ts = T; g.keys = {A, B}; if (sym_flip("swap")) g.keys = {B, A}; bool sw = g.keys[0] == B; g.rc = rc; g.resolved = resolved; g.run(); noted();
  if (g.p.txn_result().has_locked()) { int64_t lt = g.p.txn_result().locked().lock_ts(); sym_assert((wa.may && lt == a.lock.ts) || (wb.may && lt == b.lock.ts), "a read is blocked only by a lock that may commit inside its snapshot"); sym_cover("blocked"); return; }
  sym_assert(!wa.must && !wb.must, "a read does not pass a lock that may commit inside its snapshot"); sym_assert(g.ok, "an unblocked read succeeds"); sym_assert(g.p.kvs_size() == 2, "every requested key is answered");
  for (int i = 0; i < g.p.kvs_size(); ++i) { const Want& w = (i == 0) != sw ? wa : wb; sym_assert(g.p.kvs(i).key() == ((i == 0) != sw ? A : B) && g.p.kvs(i).value() == (w.on ? w.value : std::string()), "a batch read returns for every key the newest version committed at or before its timestamp"); } sym_cover("values"); }
static void check_scan() {
  std::string lo = "a", hi = "z"; switch (sym_choice("range", sym_param("ranges", 4))) { case 1: hi = B; break; case 2: lo = B; break; case 3: lo = A; hi = std::string(B) + '\0'; break; }
  bool ina = lo <= A && A < hi, inb = lo <= B && B < hi; int64_t limit = 1 + (int64_t)sym_choice("limit", 2); bool key_only = sym_flip("key_only");
  std::vector<std::pair<std::string, std::string>> got; bool blocked = false; int64_t lt = 0; std::string sid; bool more = true; int calls = 0;
  bool write_between = sym_param("write", 0) && !b.lock.on;
  while (more && calls < 4) { pb::store::TxnScanRequest q; pb::store::TxnScanResponse p; node::hdr(q, region); if (rc) q.mutable_context()->set_isolation_level(pb::store::ReadCommitted); for (auto r : resolved) q.mutable_context()->add_resolved_locks(r); q.set_start_ts(T); q.set_limit(limit); q.set_key_only(key_only); q.mutable_range()->mutable_range()->set_start_key(lo); q.mutable_range()->mutable_range()->set_end_key(hi); q.mutable_range()->set_with_start(true);
    if (!sid.empty()) q.mutable_stream_meta()->set_stream_id(sid); q.mutable_stream_meta()->set_limit(limit);
    node::call(&StoreServiceImpl::TxnScan, q, p); ++calls; noted();
    if (p.error().errcode() == pb::error::ESTREAM_EXPIRED) sym_fail("a scan session that has more results stays open"); sym_assert(p.error().errcode() == 0, "a scan in the region succeeds");
    for (int i = 0; i < p.kvs_size(); ++i) got.push_back({p.kvs(i).key(), p.kvs(i).value()}); sym_assert(p.kvs_size() <= limit, "a scan call returns at most the requested number");
    if (p.txn_result().has_locked()) { blocked = true; lt = p.txn_result().locked().lock_ts(); break; }
    sid = p.stream_meta().stream_id(); more = p.stream_meta().has_more(); sym_assert(more == p.has_more(), "both more-markers agree");
    if (calls == 1 && more && write_between) { Prewrite w; w.ts = ts_var("w_start"); sym_assume(w.ts > T); for (auto& r : b.recs) sym_assume(r.cts < w.ts && r.sts < w.ts); w.primary = B; w.ttl = 9; w.muts = {{sym_flip("w_del") ? kDelete : kPut, B, "W"}}; w.run(); Commit c; c.ts = w.ts; c.cts = w.ts + 1; c.keys = {B}; c.run(); sym_assert(c.ok, "the write between two scan calls commits"); sym_cover("write between calls"); } }
  sym_assert(!more || blocked, "a scan ends"); if (calls > 1) sym_cover("several calls");
  bool ma = ina && wa.must, mb = inb && wb.must;
  if (blocked) { sym_assert((ina && wa.may && lt == a.lock.ts) || (inb && wb.may && lt == b.lock.ts), "a scan is blocked only by a lock in its range that may commit inside its snapshot"); sym_cover("blocked"); }
  else sym_assert(!ma && !mb, "a scan does not pass a lock that may commit inside its snapshot");
  size_t i = 0; bool cut = false; auto take = [&](bool in, const Want& w, const std::string& k) { if (!in || cut) return; if (blocked && w.must) { cut = true; return; } if (!w.on) return; if (i >= got.size() && blocked) { cut = true; return; } sym_assert(i < got.size() && got[i].first == k && (key_only || got[i].second == w.value), "a scan returns every live key of its range, in order, with the newest version committed at or before its timestamp"); ++i; };
  take(ina, wa, A); take(inb, wb, B); sym_assert(i == got.size(), "a scan returns nothing else"); sym_cover("scanned"); }
extern "C" void harness_main() {
  FLAGS_max_short_value_in_write_cf = 1; int op = (int)sym_param("op", 0); setup(op == 0 ? 1 : 2);
  if (op == 0) check_get(); else if (op == 1) check_batch(); else check_scan();
}
