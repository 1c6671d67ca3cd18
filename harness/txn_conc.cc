// Requests running at the same time on one store node, every interleaving of their storage accesses and lock operations within the
// preemption bound: the answers and the stored state equal those of some order of the requests, one at a time.
#include <functional>
#include "txn.h"
#include "symsched.h"
#include "realhash.h"
using namespace txn;
static const std::string A = "k", B = "m";
struct Out { std::vector<int64_t> n; std::vector<std::string> s; bool transient = false; };   // transient: turned away by an in-memory lock
typedef std::function<Out()> Req;
static std::vector<std::vector<Req>> prog;   // per thread
static std::vector<std::vector<Out>> got;
static mem::Tables tab0; static int64_t access0 = 0;
struct World { std::vector<std::vector<Out>> o; KeyState a, b; int64_t access; };
static void reset() { node::cur->raw->tabs = tab0; region = node::add_region(*node::cur, 1, "a", "z"); if (access0) region->SetTxnAccessMaxTs(access0); got.assign(prog.size(), {}); }
static World world() { World w; w.o = got; w.a = look(A); w.b = look(B); w.access = region->TxnAccessMaxTs(); return w; }
static void run_serial(std::vector<size_t> at, std::vector<World>& out, std::vector<int> order) {
  bool end = true; for (size_t t = 0; t < prog.size(); ++t) if (at[t] < prog[t].size()) { end = false; auto n = at; n[t]++; auto o = order; o.push_back((int)t); run_serial(n, out, o); }
  if (!end) return; reset(); for (int t : order) { size_t i = got[t].size(); got[t].push_back(prog[t][i]()); } out.push_back(world()); }
static bool eq(const Out& a, const Out& b) { if (a.n.size() != b.n.size() || a.s.size() != b.s.size()) return false; bool r = true; for (size_t i = 0; i < a.n.size(); ++i) r = r & (a.n[i] == b.n[i]); for (size_t i = 0; i < a.s.size(); ++i) r = r & (a.s[i] == b.s[i]); return r; }
static bool match(const World& c, const World& s) { bool r = same(c.a, s.a) & same(c.b, s.b); for (size_t t = 0; t < c.o.size(); ++t) { if (c.o[t].size() != s.o[t].size()) return false; for (size_t i = 0; i < c.o[t].size(); ++i) if (!c.o[t][i].transient) r = r & eq(c.o[t][i], s.o[t][i]); } return r; }
// ---- requests
static Req prewrite(int64_t t, std::vector<std::string> ks, int mode, const char* v) { return [=] { Prewrite q; q.ts = t; q.ttl = 5; q.primary = A; for (auto& k : ks) q.muts.push_back({kPut, k, v}); q.one_pc = mode == 1; if (mode == 2) { q.async = true; q.secondaries = {B}; } q.run(); Out o; o.n = {q.ok, q.p.min_commit_ts(), q.p.one_pc_commit_ts(), q.p.txn_result_size() > 0 && q.p.txn_result(0).has_locked()}; return o; }; }
static Req commit(int64_t t, int64_t c, std::vector<std::string> ks) { return [=] { txn::Commit q; q.ts = t; q.cts = c; q.keys = ks; q.run(); Out o; o.n = {q.ok}; return o; }; }
static Req rollback(int64_t t, std::vector<std::string> ks) { return [=] { txn::Rollback q; q.ts = t; q.keys = ks; q.run(); Out o; o.n = {q.ok}; return o; }; }
static Req get(int64_t t, const std::string& k) { return [=] { Get q; q.ts = t; q.key = k; q.run(); Out o; o.transient = q.p.error().errcode() == pb::error::ETXN_MEMORY_LOCK_CONFLICT; o.n = {q.ok, q.locked}; o.s = {q.value}; return o; }; }
static Req scan(int64_t t) { return [=] { Scan q; q.ts = t; q.from = "a"; q.to = "z"; q.run(); Out o; o.transient = q.p.error().errcode() == pb::error::ETXN_MEMORY_LOCK_CONFLICT; o.n = {q.ok, q.p.txn_result().has_locked()}; for (int i = 0; i < q.p.kvs_size(); ++i) { o.s.push_back(q.p.kvs(i).key()); o.s.push_back(q.p.kvs(i).value()); } return o; }; }
static Req resolve(int64_t t, int64_t c) { return [=] { Resolve q; q.ts = t; q.cts = c; q.infos = {{t, c}}; q.run(); Out o; o.n = {q.ok}; return o; }; }
static Req status(int64_t t, int64_t caller) { return [=] { Status q; q.ts = t; q.primary = A; q.caller = caller; q.now = (int64_t)100 << 18; q.rollback = true; q.run(); Out o; o.n = {q.ok, q.p.action(), q.p.commit_ts(), q.p.txn_result().has_locked() || q.p.has_lock_info()}; return o; }; }
static Req secondary(int64_t t, std::vector<std::string> ks) { return [=] { Secondary q; q.ts = t; q.keys = ks; q.run(); Out o; o.n = {q.ok, q.p.commit_ts(), q.p.locks_size()}; return o; }; }
static Req beat(int64_t t) { return [=] { Beat q; q.ts = t; q.primary = A; q.ttl = 500; q.run(); Out o; o.n = {q.ok}; return o; }; }
static Req plock(int64_t t, int64_t f, std::vector<std::string> ks) { return [=] { PLock q; q.ts = t; q.fut = f; q.primary = A; q.ttl = 5; q.values = true; for (auto& k : ks) q.muts.push_back({kLock, k, ""}); q.run(); Out o; o.n = {q.ok}; for (int i = 0; i < q.p.kvs_size(); ++i) o.s.push_back(q.p.kvs(i).value()); return o; }; }
static Req prollback(int64_t t, int64_t f, std::vector<std::string> ks) { return [=] { PRollback q; q.ts = t; q.fut = f; q.keys = ks; q.run(); Out o; o.n = {q.ok}; return o; }; }
static Req gc(int64_t safe) { return [=] { Gc q; q.safe = safe; q.run(); Out o; return o; }; }
static void lock_of(const std::string& k, int64_t t, int type, bool async = false) { txn::Lock l; l.on = true; l.ts = t; l.type = type; l.ttl = 5; l.primary = A; l.async = async; l.min_commit = async ? t + 1 : 0; if (type == kLock) l.fut = t; if (type == kPut) l.value = "L"; seed_lock(k, l); }
static void rec_of(const std::string& k, int64_t s, int64_t c, const char* v) { Rec r; r.sts = s; r.cts = c; r.op = kPut; r.value = v; seed_rec(k, r); }
extern "C" void harness_main() {
  FLAGS_max_short_value_in_write_cf = 1; node::make(); region = node::add_region(*node::cur, 1, "a", "z");
  int64_t t1 = (int64_t)sym_in("t1", 10, 1000), t2 = (int64_t)sym_in("t2", 10, 1000); sym_assume(t1 != t2); int64_t c1 = (int64_t)sym_in("c1", 11, 2000); sym_assume(c1 > t1 && c1 != t2);
  switch (sym_param("pair", 0)) {
    case 0: prog = {{prewrite(t1, {A, B}, 0, "1")}, {prewrite(t2, {B, A}, 0, "2")}}; break;                       // two writers
    case 1: prog = {{prewrite(t1, {A}, 2, "1")}, {get(t2, A)}}; break;                                             // async commit against a reader
    case 2: prog = {{prewrite(t1, {A, B}, 1, "1")}, {get(t2, B)}}; break;                                          // one-phase commit against a reader
    case 3: lock_of(A, t1, kPut); lock_of(B, t1, kPut); prog = {{commit(t1, c1, {A, B})}, {rollback(t1, {B, A})}}; break;
    case 4: lock_of(A, t1, kPut); prog = {{resolve(t1, 0)}, {rollback(t1, {A}), prewrite(t2, {A}, 0, "2")}}; break;   // region resolve against another resolver and a new writer
    case 5: lock_of(A, t1, kPut); prog = {{commit(t1, c1, {A})}, {status(t1, t2)}}; break;
    case 6: prog = {{prewrite(t1, {A}, 0, "1")}, {plock(t2, t2, {A})}}; break;
    case 7: lock_of(A, t1, kPut); prog = {{beat(t1)}, {commit(t1, c1, {A})}}; break;
    case 8: lock_of(B, t1, kPut, true); prog = {{secondary(t1, {A, B})}, {prewrite(t1, {A}, 2, "1")}}; break;
    case 9: lock_of(A, t1, kLock); prog = {{prollback(t1, t1, {A})}, {status(t1, t2)}}; break;
    case 10: prog = {{prewrite(t1, {A, B}, 1, "1")}, {scan(t2)}}; break;
    case 11: lock_of(A, t1, kPut); prog = {{resolve(t1, c1)}, {commit(t1, c1, {A}), prewrite(t2, {A}, 0, "2")}}; break;
    case 12: rec_of(A, 1, 9, "B"); rec_of(A, 2, 5, "A"); prog = {{prewrite(t1, {A}, 1, "1")}, {prewrite(t2, {A}, 1, "2")}}; break;
    case 13: prog = {{plock(t1, t1, {A, B})}, {plock(t2, t2, {B, A})}}; break;
    case 14: lock_of(A, t1, kPut); prog = {{status(t1, t2)}, {beat(t1)}}; break;
  }
  if (sym_param("access", 0)) access0 = (int64_t)sym_in("max_read_ts", 1, 1000);
  tab0 = node::cur->raw->tabs; std::vector<World> all; run_serial(std::vector<size_t>(prog.size(), 0), all, {});
  reset(); sched_init((int)sym_param("preempt", 2));
  static std::vector<size_t> ids; ids.clear(); for (size_t t = 0; t < prog.size(); ++t) ids.push_back(t);
  for (size_t t = 0; t < prog.size(); ++t) sched_spawn([](void* p) { size_t t = *(size_t*)p; for (auto& r : prog[t]) { Out o = r(); got[t].push_back(o); } }, &ids[t]);
  sched_join_all(); World c = world(); bool any = false; for (auto& w : all) any = any | match(c, w);
  sym_assert(any, "requests that run at the same time have the effect of some order of them, one at a time"); sym_cover("ran"); for (auto& t : c.o) for (auto& o : t) if (o.transient) sym_cover("turned away by an in-memory lock");
  for (int i = 0; i < 2; ++i) { pb::store::TxnResultInfo ri; if (region->CheckKeys({A, B}, pb::store::SnapshotIsolation, (int64_t)1 << 60, {}, ri)) sym_fail("no in-memory lock outlives its request"); } }
