// Garbage collection of old versions at a safe point: what a reader at or after the safe point sees never changes, wherever the run is cut.
#include "txn.h"
using namespace txn;
namespace dingodb { DECLARE_int64(gc_delete_batch_count); }
extern "C" int64_t shim_clock_us;
static int64_t safe; static const int64_t kTenant = 0;
// the value a transactional read at ts sees, as an index into the records; -1 none
static int vis(const KeyState& s, int64_t ts) { for (size_t i = 0; i < s.recs.size(); ++i) { if (s.recs[i].op != kPut && s.recs[i].op != kDelete) continue; if (sym_fork(s.recs[i].cts <= ts)) return s.recs[i].op == kPut ? (int)i : -1; } return -1; }
struct Fault { bool stop = false, unknown = false; int kind = 0; };
static Fault setup(int batches) {
  Fault f; static const int64_t kBatch[] = {100000, 1, 2}; FLAGS_gc_delete_batch_count = kBatch[sym_choice("batch", batches)];
  if (FLAGS_gc_delete_batch_count > 2) f.stop = sym_flip("gc_stopped"); auto m = node::cur->meta->GetGCSafePointManager(); m->SetGcFlagAndSafePointTs({{kTenant, (int64_t)sym_in("tenant_safe_point", 0, kMaxTs)}}, f.stop);
  if (FLAGS_gc_delete_batch_count <= 2) { f.kind = (int)sym_choice("fault", 3); if (f.kind == 1) node::cur->eng->fail_after = (int)sym_choice("cut", 2); if (f.kind == 2) node::cur->eng->fail_one = 1 + (int)sym_choice("failing", 2); }
  return f; }
static void check_key(const KeyState& b, const KeyState& a, int64_t rts, const Fault& f) {
  int i = vis(b, rts), j = vis(a, rts); bool special = false;
  if (i >= 0 && sym_fork(b.recs[i].cts <= safe)) for (auto& r : b.recs) if ((r.op == kPut || r.op == kDelete) && sym_fork(r.cts > safe)) special = true;
  bool eq = (i < 0) == (j < 0) && (i < 0 || same(b.recs[i], a.recs[j]));
  if (a.recs.size() < b.recs.size()) sym_cover("collected"); if (i >= 0) sym_cover("visible value"); if (special) sym_cover("older version below a newer one");
  if (special) sym_assert(eq, "the newest version at the safe point stays readable below a newer version"); else sym_assert(eq, "garbage collection does not change what a read at or after the safe point sees");
  sym_assert(same(b.lock, a.lock), "garbage collection leaves locks and their values alone");
  size_t n = 0; for (auto& r : b.recs) if (sym_fork(r.cts > safe)) { ++n; sym_assert(n <= a.recs.size() && same(a.recs[n - 1], r), "garbage collection keeps every version newer than the safe point"); }
  if (f.stop) sym_assert(same(a, b), "a stopped garbage collection removes nothing");
  else if (f.kind == 0) { size_t left = a.recs.size() - n; sym_assert(left <= 1, "a finished garbage collection leaves at most one version per key at or before the safe point"); if (left == 1) sym_assert(a.recs.back().op == kPut, "a finished garbage collection leaves no delete or rollback record"); } }
static void part_txn() {
  region = node::add_region(*node::cur, 1, "ta", "tz"); static const std::vector<int> K = {0, 1, 3}; std::vector<KeyState> b; std::vector<std::string> keys = {"tk", "tm"}; keys.resize(sym_param("keys", 1));
  std::vector<int> kinds(K.begin(), K.begin() + sym_param("locks", 3)); for (auto& k : keys) b.push_back(any_key(k, keys[0], (int)sym_param(b.empty() ? "nrec" : "nrec2", 2), 0, sym_param("big", 1), &kinds));
  safe = ts_var("safe"); int64_t rts = ts_var("read_ts"); sym_assume(rts >= safe); Fault f = setup((int)sym_param("batches", 3));
  Gc g; g.safe = safe; g.run(); size_t w = sym_choice("checked_key", (int)keys.size()); check_key(b[w], look(keys[w]), rts, f); sym_observe("ok", g.ok); }
struct Ver { int64_t ts; int flag; int64_t ttl; std::string v; };
static int vis(const std::vector<Ver>& s, int64_t ts, int64_t now) { for (size_t i = 0; i < s.size(); ++i) if (sym_fork(s[i].ts <= ts)) return s[i].flag == 2 || (s[i].flag == 1 && sym_fork(s[i].ttl < now)) ? -1 : (int)i; return -1; }
static void part_raw() {
  region = node::add_region(*node::cur, 1, "wa", "wz"); std::vector<std::vector<Ver>> b; std::vector<std::string> keys = {"wk", "wm"}; keys.resize(sym_param("keys", 1)); auto& tab = node::cur->raw->tabs;
  for (auto& k : keys) { std::vector<Ver> vs; int n = (int)sym_choice("versions", (int)sym_param(b.empty() ? "nrec" : "nrec2", 2) + 1); for (int i = 0; i < n; ++i) { Ver v; v.ts = ts_var("ts"); if (i) sym_assume(v.ts < vs.back().ts); v.flag = (int)sym_choice("flag", 3); v.ttl = v.flag == 1 ? (int64_t)sym_in("ttl", 0, (uint64_t)1 << 50) : 0; v.v = v.flag == 2 ? "" : std::string(1, (char)('0' + i));
      pb::common::KeyValue kv; kv.set_key(k); kv.set_value(v.v); pb::common::KeyValue o = v.flag == 0 ? mvcc::Codec::EncodeKeyValueWithPut(v.ts, kv) : v.flag == 1 ? mvcc::Codec::EncodeKeyValueWithPutTTL(v.ts, v.ttl, kv) : mvcc::Codec::EncodeKeyValueWithDelete(v.ts, kv); tab.mut(Constant::kStoreDataCF).push_back({o.key(), o.value()}); vs.push_back(v); } b.push_back(vs); }
  mem::Tables before = tab; safe = ts_var("safe"); int64_t rts = ts_var("read_ts"); sym_assume(rts >= safe); Fault f = setup((int)sym_param("batches", 3));
  Gc g; g.safe = safe; g.run(); int64_t rnow = (int64_t)sym_in("read_time", 0, (uint64_t)1 << 50); sym_assume(rnow >= shim_clock_us / 1000); size_t w = sym_choice("checked_key", (int)keys.size()); auto& t = *tab.get(Constant::kStoreDataCF); size_t at = 0;
  for (size_t k = 0; k < keys.size(); ++k) { std::string p = prefix(keys[k]); std::vector<Ver> a; size_t n = 0;   // every remaining version is one of the original ones, in order
    for (auto& v : b[k]) { bool kept = false; if (at < t.size() && t[at].first.compare(0, p.size(), p) == 0 && sym_fork(ver_of(t[at].first) == v.ts)) { kept = true; ++at; a.push_back(v); } if (sym_fork(v.ts > safe)) { ++n; if (!kept) sym_fail("garbage collection keeps every version newer than the safe point"); } }
    if (k != w) continue; int i = vis(b[k], rts, rnow), j = vis(a, rts, rnow); bool special = i >= 0 && !b[k].empty() && sym_fork(b[k][i].ts <= safe) && sym_fork(b[k][0].ts > safe); bool eq = (i < 0) == (j < 0) && (i < 0 || sym_fork(b[k][i].ts == a[j].ts));
    if (a.size() < b[k].size()) sym_cover("collected");
    if (special) { sym_cover("older version below a newer one"); sym_assert(eq, "the newest version at the safe point stays readable below a newer version"); } else sym_assert(eq, "garbage collection does not change what a read at or after the safe point sees");
    if (f.stop) sym_assert(a.size() == b[k].size(), "a stopped garbage collection removes nothing"); else if (f.kind == 0) sym_assert(a.size() - n <= 1, "a finished garbage collection leaves at most one version per key at or before the safe point");
    if (a.size() < b[k].size()) sym_cover("collected"); if (i >= 0) sym_cover("visible value"); }
  sym_assert(at == t.size(), "garbage collection only removes versions"); sym_observe("ok", g.ok); }
static void part_unknown() { region = node::add_region(*node::cur, 1, sym_flip("txn") ? "ta" : "wa", "z"); Gc g; g.safe = ts_var("safe"); g.run(); sym_cover("answered"); sym_assert(!g.ok, "garbage collection of an unknown tenant is refused"); }
extern "C" void harness_main() { FLAGS_max_short_value_in_write_cf = 1; node::make(); switch (sym_param("part", 0)) { case 0: part_txn(); break; case 1: part_raw(); break; case 2: part_unknown(); break; } }
