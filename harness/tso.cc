// C03: the timestamp oracle.  Two replicas of the real TsoControl over a committed log; leadership changes, restarts from a
// snapshot, arbitrary (also backward) clocks, arbitrary request counts.
#include <time.h>
#include "coordinator/tso_control.h"
#include "common/constant.h"
#include "fake_engine.h"
#include "symsched.h"
using namespace dingodb;
static bool g_symclock = true; static int64_t g_ms = 100000;
// every reading of the wall clock is independent of the previous ones
extern "C" int clock_gettime(clockid_t, struct timespec* t) { uint64_t ms; if (g_symclock) ms = sym_in("clock_ms", 1, 1ull << 16); else ms = g_ms; t->tv_sec = kBaseTimestampMs / 1000; t->tv_nsec = (long)(ms * 1000000); return 0; }
extern "C" int64_t shim_now_us() { static int64_t t = 1700000000000000ll; return t += 1000; }
struct Pending { void* (*fn)(void*); void* arg; int node; };
static std::vector<Pending>* g_start; static int g_cur = 0;
extern "C" int bthread_start_background(bthread_t* tid, const bthread_attr_t*, void* (*fn)(void*), void* arg) { if (tid) *tid = 77; if (sched_active()) { struct A { void* (*f)(void*); void* a; }; sched_spawn([](void* p) { A* x = (A*)p; x->f(x->a); }, new A{fn, arg}); return 0; } g_start->push_back({fn, arg, g_cur}); return 0; }
extern "C" int bthread_usleep(uint64_t) { if (sched_active()) sched_yield_point(); return 0; }
struct Entry { pb::coordinator_internal::MetaIncrement mi; int64_t term; };
struct Node { std::shared_ptr<TsoControl> c; size_t applied = 0; int64_t term = -1; };
static std::vector<Entry>* g_log; static Node* g_n; static int g_leader = -1; static int64_t g_term = 0; static int g_lostack = 0;
static void apply(Node& n, size_t upto, bool lead, google::protobuf::Message* resp) { while (n.applied < upto) { Entry& e = (*g_log)[n.applied]; pb::coordinator_internal::MetaIncrement mi = e.mi; ++n.applied; bool mine = lead && n.applied == upto; n.c->ApplyMetaIncrement(mi, mine, e.term, (int64_t)n.applied, mine ? resp : nullptr); } }
static std::shared_ptr<TsoControl> fresh(int i) { auto c = std::make_shared<TsoControl>(); c->Init(); auto e = std::make_shared<fake::Engine>();
  e->on_write = [i](std::shared_ptr<Context> ctx, std::vector<pb::raft::Request*>& r) { if (i != g_leader) return butil::Status(pb::error::ERAFT_NOTLEADER, "not leader");
    g_log->push_back({r[0]->meta_req().meta_increment(), g_term}); Node& n = g_n[i];
    if (g_lostack > 0 && sym_flip("deposed_before_ack")) { --g_lostack; g_leader = -1; auto* d = ctx->Done(); if (d) d->Run(); return butil::Status(); }   // replicated, committed later by the next leader; the caller's closure runs because the node stepped down
    apply(n, g_log->size(), true, (google::protobuf::Message*)ctx->Response()); auto* d = ctx->Done(); if (d) d->Run(); return butil::Status(); };
  c->SetKvEngine(e); return c; }
struct Issued { int64_t p, l, n; bool real; };
static std::vector<Issued>* g_out;
static void gen(int i, int64_t count) { size_t before = g_out->size(); pb::meta::TsoRequest q; pb::meta::TsoResponse r; q.set_op_type(pb::meta::OP_GEN_TSO); q.set_count(count); brpc::Controller cntl; google::protobuf::Closure* none = nullptr; g_n[i].c->Process(&cntl, &q, &r, none);
  if (r.error().errcode() != pb::error::OK) return; sym_cover("issued");
  int64_t p = r.start_timestamp().physical(), l = r.start_timestamp().logical(), n = r.count(); bool real = i == g_leader;
  sym_assert(count > 0 && n == count, "only positive requests are granted, in full"); sym_assert(p > 0 && l >= 0 && n <= kMaxLogical - l, "granted logical numbers fit the composed timestamp");
  for (size_t k = 0; k < g_out->size(); ++k) { auto& o = (*g_out)[k]; sym_assert(o.p != p || o.l >= l + n || l >= o.l + o.n, "no timestamp is ever granted twice"); if (real) { sym_cover("ordered pair"); if (o.real && k < before) sym_assert(o.p < p || (o.p == p && o.l + o.n <= l), "timestamps granted by the leader increase, also across leader changes"); } }
  g_out->push_back({p, l, n, real}); sym_observe("p", p); sym_observe("l", l); }
static void run_start(int i, bool must = false) { for (size_t k = 0; k < g_start->size(); ++k) if ((*g_start)[k].node == i) { Pending p = (*g_start)[k]; g_start->erase(g_start->begin() + k); g_cur = i; p.fn(p.arg); return; } if (must) sym_stop(); }
static void stepdown(int i) { if (g_n[i].term > 0 && i != g_leader) { g_n[i].term = -1; g_n[i].c->SetLeaderTerm(-1); g_n[i].c->OnLeaderStop(); } }
static void elect(int i) { int old = g_leader; g_leader = i; ++g_term; if (g_n[i].term > 0) { g_leader = -1; stepdown(i); g_leader = i; } (void)old; apply(g_n[i], g_log->size(), false, nullptr); g_n[i].term = g_term; g_cur = i; g_n[i].c->SetLeaderTerm(g_term); g_n[i].c->OnLeaderStart(g_term); }
static void setup(int n) { g_start = new std::vector<Pending>(); g_log = new std::vector<Entry>(); g_out = new std::vector<Issued>(); g_n = new Node[n]; for (int i = 0; i < n; ++i) g_n[i].c = fresh(i); }
static void history() {
  int N = (int)sym_param("nodes", 2); setup(N); g_lostack = (int)sym_param("lostack", 0);
  elect(0); run_start(0); gen(0, (int64_t)sym_in("count", 1, 1000));
  int steps = (int)sym_param("steps", 4);
  for (int s = 0; s < steps; ++s) switch (sym_choice("event", 7)) {
    case 0: gen((int)sym_choice("node", N), sym_i64("count")); break;
    case 1: { int i = (int)sym_choice("node", N); if (!g_n[i].c->IsLeader()) sym_stop(); g_n[i].c->UpdateTimestamp(); break; }
    case 6: { int i = (int)sym_choice("node", N); elect(i); run_start(i); break; }   // election with the leader-start work done at once
    case 2: { int i = (int)sym_choice("node", N); elect(i); break; }
    case 3: run_start((int)sym_choice("node", N), true); break;
    case 4: { int i = (int)sym_choice("node", N); if (i == g_leader || g_n[i].term <= 0) sym_stop(); stepdown(i); break; }
    case 5: { int i = (int)sym_choice("node", N); auto f = fresh(i); if (sym_flip("snapshot")) { auto sn = g_n[i].c->PrepareRaftSnapshot(); pb::coordinator_internal::MetaSnapshotFile file; sym_assert(g_n[i].c->LoadMetaToSnapshotFile(sn, file), "snapshot saves"); sym_assert(f->LoadMetaFromSnapshotFile(file), "snapshot loads"); } else g_n[i].applied = 0;
              for (size_t k = 0; k < g_start->size();) if ((*g_start)[k].node == i) g_start->erase(g_start->begin() + k); else ++k;
              g_n[i].c = f; g_n[i].term = -1; if (g_leader == i) g_leader = -1; sym_cover("restart"); break; }
  }
}
// adjusting the clock without force never takes back a granted timestamp
static void adjust() {
  setup(1); elect(0); run_start(0); gen(0, (int64_t)sym_in("count", 1, 1000));
  pb::meta::TsoRequest q; pb::meta::TsoResponse r; q.set_op_type(sym_flip("reset") ? pb::meta::OP_RESET_TSO : pb::meta::OP_UPDATE_TSO); q.set_save_physical(sym_i64("save")); q.set_force(false); q.mutable_current_timestamp()->set_physical(sym_i64("phys")); q.mutable_current_timestamp()->set_logical((int64_t)sym_in("logical", 0, kMaxLogical));
  brpc::Controller cntl; google::protobuf::Closure* none = nullptr; g_n[0].c->Process(&cntl, &q, &r, none); if (r.error().errcode() == pb::error::OK) sym_cover("accepted"); else sym_cover("rejected");
  gen(0, (int64_t)sym_in("count", 1, 1000));
}
// concurrent requests and the timer
static void concurrent() {
  g_symclock = false; setup(1); elect(0); run_start(0);
  int T = (int)sym_param("threads", 2); sched_init((int)sym_param("preempt", 2)); sched_watch(&g_n[0].c->tso_obj_.current_timestamp, sizeof(pb::meta::TsoTimestamp));
  for (int t = 0; t < T; ++t) sched_spawn([](void*) { gen(0, 5); }, nullptr);
  if (sym_param("timer", 1)) { g_ms += 10; sched_spawn([](void*) { g_n[0].c->UpdateTimestamp(); }, nullptr); }
  sched_join_all(); sym_assert(g_out->size() == (size_t)T, "every request is served"); sym_cover("done");
}
extern "C" void harness_main() { switch (sym_param("part", 0)) { case 0: history(); break; case 1: adjust(); break; case 2: concurrent(); break; } }
