// C30: one-time watches on keys of the coordinator's key-value store, in any order with writes, cancels and leader changes (history), and
// at the same time as them (race).
#include "kv_coord.h"
namespace dingodb { DECLARE_int64(version_watch_max_count); }
using namespace kvc;
struct Watch { std::string key; int64_t s = 0; bool noput = false, nodel = false, prev = false, wait = false; pb::version::WatchRequest q; pb::version::WatchResponse p; brpc::Controller c; Done d; uint64_t id = 0;
  bool answered = false, want = false, bare = false; pb::version::Event::EventType type = pb::version::Event::NONE; Kv kv, old;   // what is expected
  void run() { auto* o = q.mutable_one_time_request(); o->set_key(key); o->set_start_revision(s); o->set_need_prev_kv(prev); o->set_wait_on_not_exist_key(wait); if (noput) o->add_filters(pb::version::NOPUT); if (nodel) o->add_filters(pb::version::NODELETE); DoWatch(&c, &q, &p, &d, lead.kv, eng); } };
static Model m; static std::vector<Watch*> ws; static const char* KEYS[] = {"a", "b"};
static void expect(Watch& w, pb::version::Event::EventType t, const Kv& now, const Kv* before) { w.want = true; w.type = t; w.kv = now; if (before && w.prev) w.old = *before; }
static void fire(pb::version::Event::EventType t, const Kv& now, const Kv* before) { for (auto* w : ws) if (!w->want && w->key == now.key && !(t == pb::version::Event::PUT ? w->noput : w->nodel) && w->s <= now.mod) { expect(*w, t, now, before); sym_cover("woken"); } }
static void check() { for (auto* w : ws) { sym_assert(w->d.runs == (w->want ? 1 : 0), w->want ? "a watch is answered once when its event happens" : "a watch waits for its event"); if (!w->want || w->answered) continue; w->answered = true;
  if (w->bare) { sym_assert(w->p.events_size() == 0, "a cancelled watch reports no event"); continue; }
  sym_assert(okay(w->p) && w->p.events_size() == 1, "a watch is answered with its event"); auto& e = w->p.events(0); sym_assert(e.type() == w->type, "a watch reports the kind of its event"); if (w->type == pb::version::Event::NOT_EXISTS) continue;
  Kv k = conv(e.kv()); sym_assert((k.key == w->kv.key) & (k.mod == w->kv.mod), "a watch reports the key and revision of its event"); if (w->type == pb::version::Event::PUT) sym_assert(same(k, w->kv), "a watch reports the value that was written");
  if (w->old.mod) sym_assert(same(conv(e.prev_kv()), w->old), "a watch reports the value before its event"); else sym_assert(!e.has_prev_kv() || e.prev_kv().mod_revision() == 0, "no value before the event when there was none or it was not asked for"); } }
static void put(const std::string& k, const std::string& v, int64_t lease) { Put q; q.key = k; q.val = v; q.lease = lease; q.run(); if (!q.ok) return; Kv* o = m.find(k); Kv b = o ? *o : Kv(); ++m.rev; Kv n; n.key = k; n.val = v; n.create = o ? o->create : m.rev; n.mod = m.rev; n.ver = o ? o->ver + 1 : 1; n.lease = lease; if (o) *o = n; else m.kv.insert(m.kv.begin() + m.at(k), n); fire(pb::version::Event::PUT, n, b.mod ? &b : nullptr); }
static void gone(const std::vector<Kv>& g) { if (g.empty()) return; ++m.rev; for (auto& b : g) { Kv n; n.key = b.key; n.mod = m.rev; fire(pb::version::Event::DELETE, n, &b); } }
static void del(const std::string& a, const std::string& e) { Del q; q.key = a; q.end = e; q.run(); std::vector<Kv> g; for (size_t i = 0; i < m.kv.size();) if (Model::in(m.kv[i].key, a, e)) { g.push_back(m.kv[i]); m.kv.erase(m.kv.begin() + i); } else ++i; gone(g); }
static void revoke(int64_t id) { Revoke q; q.id = id; q.run(); if (!q.ok) return; std::vector<Kv> g; for (size_t i = 0; i < m.kv.size();) if (m.kv[i].lease == id) { g.push_back(m.kv[i]); m.kv.erase(m.kv.begin() + i); } else ++i; gone(g); }
static Watch* mk() { auto* w = new Watch; ws.push_back(w); return w; }
static void watch() { Watch* w = mk(); w->key = KEYS[sym_choice("wkey", 2)]; w->s = (int64_t)sym_choice("now", 2) ? 0 : m.rev + (int64_t)sym_in("start", 0, 6) - 3; size_t f = sym_choice("filter", 4); w->noput = f & 1; w->nodel = f & 2; w->wait = sym_flip("wait"); w->prev = ws.size() > 1 || sym_flip("wprev"); bool full = ws.size() > 1 && !w->noput && sym_flip("full"); FLAGS_version_watch_max_count = full ? 0 : 50000; bool over = full && lead.kv->one_time_watch_map_.size() > 0; w->run();
  if (f == 3 || over) { sym_assert(w->d.runs == 1 && w->p.events_size() == 0 && w->p.error().errcode() == (over ? pb::error::EWATCH_COUNT_EXCEEDS_LIMIT : pb::error::EILLEGAL_PARAMTETERS), "a watch that cannot be kept is refused"); ws.pop_back(); sym_cover("refused"); return; }
  if (w->s == 0) w->s = m.rev; Kv* o = m.find(w->key); w->id = lead.kv->one_time_watch_closure_seq_.load() - 1;
  if (!o && !w->wait) { expect(*w, pb::version::Event::NOT_EXISTS, Kv(), nullptr); sym_cover("absent"); } else if (o && !w->noput && o->mod > w->s) { expect(*w, pb::version::Event::PUT, *o, nullptr); sym_cover("already changed"); } }
static void cancel(Watch* w) { lead.kv->CancelOneTimeWatchClosure(w->id); lead.kv->RemoveOneTimeWatch(); if (!w->want) { w->want = w->bare = true; sym_cover("cancelled"); } }
static void drop_all() { for (auto* w : ws) if (!w->want) w->want = w->bare = true; }
static void stop_lead() { lead.sm->on_leader_stop(butil::Status()); drop_all(); }
static void step(bool first) { size_t op = first ? 0 : sym_choice("op", 6);
  switch (op) {
    case 0: watch(); break;
    case 1: put(KEYS[sym_choice("key", 2)], std::string(1, (char)sym_in("val", 'A', 'Z')), 0); break;
    case 2: del("a", sym_flip("range") ? std::string(1, '\0') : ""); break;
    case 3: revoke(5); break;
    case 4: if (!ws.empty()) cancel(ws[0]); break;
    case 5: stop_lead(); check(); { Watch* w = mk(); w->key = "a"; w->wait = true; w->run(); sym_assert(w->d.runs == 1 && w->p.error().errcode() == pb::error::ERAFT_NOTLEADER, "a watch on a node that is not leader is sent to the leader"); ws.pop_back(); } ++term; lead_start(); break;
  }
  check(); }
// ---- at the same time
static int kind; static Put wput; static Del wdel; static Watch* rw;
static void other(void*) { switch (kind) { case 0: wput.run(); break; case 1: wdel.run(); break; case 2: lead.sm->on_leader_stop(butil::Status()); break; case 3: lead.sm->on_leader_stop(butil::Status()); ++term; lead_start(); break; case 4: lead.kv->CancelOneTimeWatchClosure(1000); lead.kv->RemoveOneTimeWatch(); break; case 5: wput.run(); wdel.run(); break; case 6: ++term; lead_start(); break; } }
static void watcher(void*) { rw->run(); }
static void race() {
  kind = (int)sym_param("kind", 0); bool exists = sym_flip("exists"); int64_t s = m.rev; if (exists) { put("a", "x", 0); s = m.rev; } if (sym_flip("older watch")) { Watch* w = mk(); w->key = "a"; w->wait = true; w->run(); sym_assert(w->d.runs == 0, "a watch waits for its event"); }
  rw = mk(); rw->key = "a"; rw->s = s; rw->wait = true; rw->prev = sym_flip("wprev"); wput.key = "a"; wput.val = "y"; wdel.key = "a";
  if (kind == 6) lead.sm->on_leader_stop(butil::Status());
  sched_init((int)sym_param("preempt", 2)); sched_spawn(watcher, nullptr); sched_spawn(other, nullptr); sched_join_all();
  if (kind == 0) for (auto* w : ws) { sym_assert(w->d.runs == 1, "a watch never misses the write it waits for"); sym_assert(w->p.events_size() == 1 && w->p.events(0).type() == pb::version::Event::PUT && w->p.events(0).kv().kv().value() == "y", "a watch is answered with its event"); sym_cover("woken"); }
  if (kind == 1 && exists) { if (ws.size() > 1) sym_assert(ws[0]->d.runs == 1, "a watch never misses the delete it waits for"); if (rw->d.runs) { sym_cover("woken"); sym_assert(rw->p.events_size() == 1 && rw->p.events(0).type() == pb::version::Event::DELETE, "a watch is answered with its event"); } }
  if (kind == 2) for (auto* w : ws) { sym_assert(w->d.runs == 1, "no watch is left behind by a leader that stepped down"); sym_cover("not leader"); }
  if (kind == 5) for (auto* w : ws) { sym_assert(w == rw || w->d.runs == 1, "a watch never misses the write it waits for"); if (w->d.runs) sym_cover("woken"); }
  if (kind == 4) { sym_assert(ws[0] == rw || ws[0]->d.runs == 1, "a cancelled watch ends"); sym_cover("cancelled"); }
  // whatever is still waiting sees the next write, or the end of this leadership
  bool write = kind != 2 && sym_flip("write"); if (write) { Put p; p.key = "a"; p.val = "z"; p.run(); sym_assert(p.ok, "put"); } else lead.sm->on_leader_stop(butil::Status());
  for (auto* w : ws) { sym_assert(w->d.runs == 1, write ? "a waiting watch sees the next write" : "no watch is left behind by a leader that stepped down"); sym_assert(w->p.events_size() <= 1, "a watch reports one event"); }
  auto* k = lead.kv.get(); sym_assert(k->one_time_watch_map_.empty() && k->one_time_watch_closure_map_.empty(), "an answered watch is forgotten");
}
extern "C" void harness_main() {
  shim_clock_us = 1000000000; shim_clock_step_us = 0; make(false); m = Model(); ws.clear();
  if (sym_param("race", 0)) { race(); return; }
  if (sym_param("seed", 0) == 1) { Grant g; g.id = 5; g.run(); put("a", "x", 5); put("b", "x", 0); put("a", "y", 5); } else if (sym_param("seed", 0) == 2) { put("a", "x", 0); del("a", ""); }
  for (int i = 0; i < (int)sym_param("steps", 2); ++i) step(i == 0);
}
