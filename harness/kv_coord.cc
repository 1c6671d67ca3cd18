// C15: any history of requests to the coordinator's versioned key-value store, with restarts, crashes inside an apply, snapshots.
#include "kv_coord.h"
using namespace kvc;
static Model m; static const char* KEYS[] = {"a", "ab", "b"}; static const std::string ENDS[] = {"", "b", std::string(1, '\0'), "c", "ab"};
static std::string val(const char* n) { return std::string(1, (char)sym_in(n, 'A', 'Z')); }
static void all(const char* what) { check_range(m, "a", std::string(1, '\0'), 0, false, false, what); }
static void put(const Put& q0) { Put q = q0; Kv* o = m.find(q.key); q.run();
  bool good = !(!q.ign_val && q.val.empty()); if (good && !q.ign_lease && q.lease != 0 && !m.has_lease(q.lease)) good = false; if (good && q.ign_lease && !o) good = false; if (good && !q.ign_lease && o && o->lease != q.lease) good = false;
  sym_assert(q.ok == good, "a put is accepted exactly when its request and lease are valid"); if (!good) { sym_cover("refused"); return; }
  ++m.rev; sym_assert(q.rev == m.rev, "a put answers the revision it created"); if (q.prev) sym_assert(same(q.old, o ? *o : Kv()), "a put answers the replaced value"); else sym_assert(q.old.key.empty(), "no previous value unless asked for");
  Kv n; n.key = q.key; n.val = q.ign_val ? (o ? o->val : "") : q.val; n.create = o ? o->create : m.rev; n.mod = m.rev; n.ver = o ? o->ver + 1 : 1; n.lease = q.ign_lease ? o->lease : q.lease; if (o) { *o = n; sym_cover("overwritten"); } else m.kv.insert(m.kv.begin() + m.at(n.key), n); }
static void drop(const std::string& a, const std::string& e, std::vector<Kv>* gone) { for (size_t i = 0; i < m.kv.size();) if (Model::in(m.kv[i].key, a, e)) { gone->push_back(m.kv[i]); m.kv.erase(m.kv.begin() + i); } else ++i; }
static void del(const std::string& a, const std::string& e, bool prev) { Del q; q.key = a; q.end = e; q.prev = prev; q.run(); std::vector<Kv> gone; drop(a, e, &gone); sym_assert(q.ok, "delete"); sym_assert(q.n == (int64_t)gone.size(), "a delete answers how many keys it removed");
  if (!gone.empty()) { ++m.rev; sym_assert(q.rev == m.rev, "a delete answers the revision it created"); sym_cover("deleted"); } sym_assert(q.old.size() == (prev ? gone.size() : 0), "a delete answers the removed values"); bool r = true; for (size_t i = 0; i < q.old.size(); ++i) r = r & same(q.old[i], gone[i]); sym_assert(r, "a delete answers the removed values"); }
static void revoke(int64_t id) { Revoke q; q.id = id; q.run(); sym_assert(q.ok == m.has_lease(id), "a lease is revoked exactly when it exists"); if (!q.ok) return; for (size_t i = 0; i < m.leases.size(); ++i) if (m.leases[i] == id) { m.leases.erase(m.leases.begin() + i); break; } bool any = false; for (size_t i = 0; i < m.kv.size();) if (m.kv[i].lease == id) { m.kv.erase(m.kv.begin() + i); any = true; } else ++i; if (any) { ++m.rev; sym_cover("lease revoked with keys"); } }
static void grant(int64_t id) { Grant q; q.id = id; q.run(); bool good = id == 0 || !m.has_lease(id); sym_assert(q.ok == good, "a lease is granted exactly when its id is free"); if (!good) return; sym_assert(id == 0 ? q.got > 0 && !m.has_lease(q.got) : q.got == id, "a new lease id"); m.leases.push_back(q.got); }
static void restart_clean() { ++term; restart(lead.raw->tabs); lead_start(); sym_cover("restarted"); }
static void snapshot() { auto s = lead.kv->PrepareRaftSnapshot(); pb::coordinator_internal::MetaSnapshotFile f, g; sym_assert(lead.kv->LoadMetaToSnapshotFile(s, f), "snapshot"); g.ParseFromString(f.SerializeAsString()); Rep n; n.raw = std::make_shared<mem::Engine>(); n.boot(); { pb::common::KeyValue kv; kv.set_key("METASFMMETA_KV_INDEX_zz"); kv.set_value(""); } int at = (int)sym_choice("snap_crash", (size_t)sym_param("snap_crash", 1)); if (at) n.raw->crash_at = at - 1;
  sym_assert(n.kv->LoadMetaFromSnapshotFile(g), "snapshot load"); if (at && n.raw->writes > at - 1) { n.raw->tabs = n.raw->crash_tabs; n.raw->crash_at = -1; n.boot(); int64_t t = 0, i = 0, lt = 0, li = 0; n.kv->GetAppliedTermAndIndex(t, i); lead.kv->GetAppliedTermAndIndex(lt, li); sym_cover("crash while loading"); if (!(t >= lt && i >= li)) sym_assert(n.kv->LoadMetaFromSnapshotFile(g), "snapshot load"); }
  n.kv->SetKvEngine(eng); lead = n; ++term; lead_start(); sym_cover("snapshot restored"); }
static void crash_replay(const char* what) {   // the last applied entry again, from what was on disk at some write of it
  if (lead.raw->crash_at < 0 || lead.raw->writes <= lead.raw->crash_at) { lead.raw->crash_at = -1; return; } ++term; restart(lead.raw->crash_tabs); int64_t t = 0, i = 0; lead.kv->GetAppliedTermAndIndex(t, i); for (auto& e : rlog) if (e.index > i) lead.sm->DispatchRequest(false, e.term, e.index, *e.cmd, nullptr); lead_start(); sym_cover("crash inside an apply"); all(what); }
static void step(int i) {
  size_t op = sym_choice("op", 6); if (sym_param("crash", 0)) lead.raw->crash_at = lead.raw->writes + (int)sym_choice("crash_at", (size_t)sym_param("crash", 0) + 1) - 1; if (lead.raw->crash_at < lead.raw->writes) lead.raw->crash_at = -1;
  switch (op) {
    case 0: { Put q; q.key = KEYS[sym_choice("key", 2)]; size_t f = sym_choice("flags", 5); q.val = f == 4 ? "" : val("val"); q.prev = f & 1; q.ign_val = f == 2; q.ign_lease = f == 3; size_t l = sym_choice("lease", m.leases.empty() ? 1 : 2); q.lease = l == 0 ? 0 : m.leases[0]; if (f == 1 && sym_flip("bad_lease")) q.lease = 77; put(q); break; }
    case 1: del(KEYS[sym_choice("key", 2)], ENDS[sym_choice("end", 3)], sym_flip("prev")); break;
    case 2: { Compact q; q.key = "a"; q.end = sym_flip("one") ? "" : std::string(1, '\0'); q.rev = (int64_t)sym_in("compact_rev", 9990, 10020); q.run(); sym_assert(q.ok, "compaction"); sym_cover("compacted"); break; }
    case 3: if (sym_flip("grant")) grant(sym_flip("own_id") ? 5 : 0); else revoke(m.leases.empty() ? 5 : m.leases[0]); break;
    case 4: restart_clean(); break;
    case 5: snapshot(); break;
  }
  if (foll.sm && op < 4) sym_assert(same_tables(lead.raw, foll.raw), "replicas hold the same state");
  if (op < 4) crash_replay("a crash inside an apply changes nothing a client can see");
  all("the store holds exactly what the accepted requests wrote");
}
extern "C" void harness_main() {
  shim_clock_us = 1000000000; shim_clock_step_us = 0; make(sym_param("crash", 0) == 0); m = Model();
  switch (sym_param("seed", 0)) { case 1: { grant(5); Put q; q.key = "a"; q.val = "x"; q.lease = 5; put(q); q.key = "ab"; q.lease = 0; put(q); q.val = "y"; put(q); break; } case 2: { Put q; q.key = "a"; q.val = "x"; put(q); q.val = "y"; put(q); del("a", "", false); q.val = "z"; put(q); break; } }
  for (int i = 0; i < (int)sym_param("steps", 2); ++i) step(i);
  if (!sym_param("crash", 0)) check_range(m, KEYS[sym_choice("rkey", 3)], ENDS[sym_choice("rend", 5)], (int64_t)sym_choice("limit", 3), sym_flip("keys_only"), sym_flip("count_only"), "a range request answers exactly the live keys of its range");
}
