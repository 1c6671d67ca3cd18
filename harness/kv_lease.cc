// C31: leases of the coordinator's key-value store: in any order with writes, the passage of time, leader changes and refused writes
// (history), and two requests at the same time (race).
#include "kv_coord.h"
using namespace kvc;
struct L { int64_t id, ttl, at; };
static Model m; static std::vector<L> ls; static const char* KEYS[] = {"a", "b"};
static int64_t now() { return shim_clock_us / 1000000; }
static L* find(int64_t id) { for (auto& l : ls) if (l.id == id) return &l; return nullptr; }
static bool live(int64_t id) { L* l = find(id); return l && now() < l->at + l->ttl; }
static void drop_lease(int64_t id) { for (size_t i = 0; i < ls.size(); ++i) if (ls[i].id == id) { ls.erase(ls.begin() + i); break; } bool any = false; for (size_t i = 0; i < m.kv.size();) if (m.kv[i].lease == id) { m.kv.erase(m.kv.begin() + i); any = true; } else ++i; if (any) { sym_cover("keys removed with their lease"); } }
static std::vector<int64_t> list() { pb::version::ListLeasesRequest q; pb::version::ListLeasesResponse p; Done d; DoListLeases(nullptr, &q, &p, &d, lead.kv, eng); std::vector<int64_t> r; for (auto& l : p.leases()) r.push_back(l.id()); return r; }
static Range scan() { Range r; r.key = "a"; r.end = std::string(1, '\0'); r.run(); return r; }
static void check() {   // revisions are C15's subject: here only which keys and leases there are
  Range r = scan(); sym_assert(r.kvs.size() == m.kv.size(), "exactly the keys without a lease or with a live one are there"); for (size_t i = 0; i < m.kv.size(); ++i) sym_assert(r.kvs[i].key == m.kv[i].key && r.kvs[i].val == m.kv[i].val && r.kvs[i].lease == m.kv[i].lease, "exactly the keys without a lease or with a live one are there");
  auto got = list(); sym_assert(got.size() == ls.size(), "exactly the leases granted and neither revoked nor expired are there"); for (auto& l : ls) { bool in = false; for (auto g : got) in |= g == l.id; sym_assert(in, "exactly the leases granted and neither revoked nor expired are there");
    Query q; q.id = l.id; q.run(); sym_assert(q.ok == live(l.id), "a lease answers until it expires"); if (!q.ok) continue; sym_assert(q.ttl == l.at + l.ttl - now() && q.granted == l.ttl, "a lease answers its remaining time"); size_t n = 0; for (auto& k : m.kv) if (k.lease == l.id) { ++n; bool in = false; for (auto& x : q.keys) in |= x == k.key; sym_assert(in, "a lease names its keys"); } sym_assert(q.keys.size() == n, "a lease names its keys"); } }
static void tick() { lead.kv->LeaseTask(); for (size_t i = 0; i < ls.size();) if (now() > ls[i].at + ls[i].ttl) { drop_lease(ls[i].id); i = 0; sym_cover("expired"); } else ++i; }
static void put(const std::string& k, int64_t lease) { Put q; q.key = k; q.val = std::string(1, (char)('A' + m.kv.size())); q.lease = lease; q.run(); Kv* o = m.find(k); bool good = (lease == 0 || live(lease)) && (!o || o->lease == lease); if (refuse) good = false; sym_assert(q.ok == good, "a put is accepted exactly when its lease is live"); if (!q.ok) return; Kv n; n.key = k; n.val = q.val; n.lease = lease; if (o) *o = n; else m.kv.insert(m.kv.begin() + m.at(k), n); }
static void step(int i) {
  size_t op; refuse = false; bool swap = sym_param("swap", 0) && (i & 1) == 0; op = swap ? 6 : sym_choice("op", 8);
  if (op == 7) { op = sym_choice("failing", 6); refuse = true; if (op == 5) op = 8; }
  switch (op) {
    case 0: { Grant g; g.id = sym_flip("own") ? 5 : 0; size_t t = sym_choice("ttl", 3); g.ttl = t == 0 ? 10 : t == 1 ? 1 : 100000; g.run(); bool good = (g.id == 0 || !find(g.id)) && !refuse; sym_assert(g.ok == good, "a lease is granted exactly when its id is free"); if (g.ok) { sym_assert(!find(g.got) && g.got > 0 && (g.id == 0 || g.got == g.id), "a new lease id"); sym_assert(g.got_ttl == (t == 0 ? 10 : t == 1 ? 3 : 300), "a lease time within the limits"); ls.push_back({g.got, g.got_ttl, now()}); } break; }
    case 1: put(KEYS[sym_choice("key", 2)], sym_flip("leased") ? (ls.empty() ? 77 : ls[0].id) : 0); break;
    case 2: { Del q; q.key = "a"; q.end = sym_flip("all") ? std::string(1, '\0') : ""; q.run(); sym_assert(q.ok == !refuse, "delete"); if (q.ok) for (size_t i = 0; i < m.kv.size();) if (Model::in(m.kv[i].key, q.key, q.end)) m.kv.erase(m.kv.begin() + i); else ++i; break; }
    case 3: { Renew q; q.id = ls.empty() ? 77 : ls[0].id; q.run(); sym_assert(q.ok == (!ls.empty() && !refuse), "a lease is renewed exactly when it exists"); if (q.ok) { sym_assert(q.ttl == ls[0].ttl, "a renewed lease has its full time"); ls[0].at = now(); sym_cover("renewed"); } else if (refuse && !ls.empty()) ls[0].at = -1; break; }
    case 4: { Revoke q; q.id = ls.empty() ? 77 : ls[0].id; q.run(); sym_assert(q.ok == (!ls.empty() && !refuse), "a lease is revoked exactly when it exists"); if (q.ok) drop_lease(ls[0].id); break; }
    case 5: shim_clock_us += 1000000 * (int64_t[]){9, 10, 11, 400}[sym_choice("later", 4)]; tick(); break;
    case 6: { size_t how = swap ? 2 : sym_choice("change", foll.sm ? 3 : 2); if (how == 0) { ++term; restart(lead.raw->tabs); lead_start(); } else if (how == 2) { lead.sm->on_leader_stop(butil::Status()); if (sym_flip("seen")) lead.kv->LeaseTask(); ++term; std::swap(lead, foll); lead.kv->SetKvEngine(eng); lead_start(); sym_cover("another leader"); } else { lead.sm->on_leader_stop(butil::Status()); if (sym_flip("seen")) lead.kv->LeaseTask(); ++term; lead_start(); } tick(); sym_cover("leader change"); break; }
    case 8: shim_clock_us += 400000000; lead.kv->LeaseTask(); break;
  }
  if (refuse) { sym_cover("refused write"); refuse = false; if (op == 8) tick(); for (auto& l : ls) if (l.at == -1) { ls.clear(); for (size_t i = 0; i < m.kv.size();) if (m.kv[i].lease) m.kv.erase(m.kv.begin() + i); else ++i; shim_clock_us += 400000000; lead.kv->LeaseTask(); break; } }
  check();
}
// ---- at the same time
static int left; static void (*bodies[2])(); static Put P; static Del D; static Grant G[2]; static Revoke V[2]; static Renew N;
static void run_body(void* p) { bodies[(size_t)p](); --left; sched_wake(&rlog, 1); }
static void applier(void*) { while (left > 0 || applied < rlog.size()) { if (applied < rlog.size()) { size_t i = applied; apply_one(); sched_wake(&rlog[i].done, 1); } else sched_block(&rlog); } }
static void race() {
  int kind = (int)sym_param("kind", 0); bool had = sym_flip("key there before");
  if (kind != 6 && kind != 5) { Grant g; g.id = 5; g.ttl = 10; g.run(); sym_assert(g.ok, "grant"); } if (kind != 6 && kind != 5 && had) { Put p; p.key = "a"; p.val = "x"; p.lease = 5; p.run(); } { Put p; p.key = "c"; p.val = "x"; p.run(); }
  if (kind == 1 || kind == 3) shim_clock_us += 11000000;
  P.key = "a"; P.val = "y"; P.lease = 5; D.key = "a"; V[0].id = V[1].id = N.id = 5; G[0].id = G[1].id = kind == 6 ? 5 : 0;
  static void (*const A[][2])() = {{[] { P.run(); }, [] { V[0].run(); }}, {[] { P.run(); }, [] { lead.kv->LeaseTask(); }}, {[] { N.run(); }, [] { V[0].run(); }}, {[] { N.run(); }, [] { lead.kv->LeaseTask(); }}, {[] { P.run(); }, [] { D.run(); }}, {[] { G[0].run(); }, [] { G[1].run(); }}, {[] { G[0].run(); }, [] { G[1].run(); }}, {[] { V[0].run(); }, [] { V[1].run(); }}, {[] { V[0].run(); }, [] { D.run(); }}};
  bodies[0] = A[kind][0]; bodies[1] = A[kind][1]; left = 2; threaded = true;
  sched_init((int)sym_param("preempt", 2)); sched_spawn(run_body, (void*)0); sched_spawn(run_body, (void*)1); sched_spawn(applier, nullptr); sched_join_all(); threaded = false;
  auto lss = list(); auto has = [&](int64_t id) { for (auto l : lss) if (l == id) return true; return false; }; Range r = scan(); bool a = false; for (auto& k : r.kvs) { if (k.key == "a") a = true; if (k.lease) sym_assert(has(k.lease), "no key outlives its lease"); }
  switch (kind) { case 0: sym_assert(V[0].ok && !has(5) && !a, "a revoked lease takes its keys with it"); if (P.ok) sym_cover("both"); break; case 1: sym_assert(!P.ok && !a && !has(5), "an expired lease takes its keys with it"); sym_cover("both"); break;
    case 2: sym_assert(V[0].ok && !has(5), "a revoked lease stays revoked"); sym_assert(!a, "a revoked lease takes its keys with it"); if (N.ok) sym_cover("both"); break; case 3: sym_assert(N.ok == has(5) && a == (had && N.ok), "a renewed lease lives, any other expires"); if (N.ok) sym_cover("both"); break;
    case 4: sym_assert(P.ok && D.ok && has(5), "a put and a delete"); sym_cover("both"); break; case 5: sym_assert(G[0].ok && G[1].ok && G[0].got != G[1].got && has(G[0].got) && has(G[1].got), "two grants give two leases"); sym_cover("both"); break; case 6: sym_assert(G[0].ok != G[1].ok && has(5), "a lease id is granted once"); sym_cover("both"); break;
    case 7: sym_assert(V[0].ok != V[1].ok && !has(5) && !a, "a lease is revoked once"); sym_cover("both"); break; case 8: sym_assert(V[0].ok && D.ok && !has(5) && !a, "a revoked lease takes its keys with it"); sym_cover("both"); break; }
  if (sym_flip("leader change")) { lead.sm->on_leader_stop(butil::Status()); ++term; lead_start(); }
  shim_clock_us += 1000000000; lead.kv->LeaseTask(); Range z = scan(); sym_assert(z.kvs.size() == 1 && z.kvs[0].key == "c", "every lease and its keys go in the end, and nothing else"); sym_assert(list().empty(), "every lease and its keys go in the end, and nothing else");
}
extern "C" void harness_main() {
  shim_clock_us = 1000000000; shim_clock_step_us = 0; make(!sym_param("race", 0) && sym_param("follower", 0)); m = Model(); ls.clear();
  if (sym_param("race", 0)) { race(); return; }
  if (sym_param("seed", 0)) { Grant g; g.id = 5; g.ttl = 10; g.run(); ls.push_back({5, 10, now()}); put("a", 5); if (sym_param("seed", 0) == 2) put("b", 5); }
  for (int i = 0; i < (int)sym_param("steps", 2); ++i) step(i);
}
