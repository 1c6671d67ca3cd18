// C14: the timestamps a store gives to raw writes.  The real TsProvider with its lock-free list of batches over a coordinator
// whose answers (grants, refusals, lost calls, a leader elsewhere) are symbolic; callers and the worker are threads.
#include "mvcc/ts_provider.h"
#include "coordinator/coordinator_interaction.h"
#include "common/helper.h"
#include "proto/meta.pb.h"
#include "bthread/types.h"
#include "sym.h"
#include "symsched.h"
#include <deque>
#include <vector>
DECLARE_uint32(ts_provider_batch_size); DECLARE_uint32(ts_provider_send_retry_num); DECLARE_uint32(ts_provider_max_retry_num); DECLARE_uint32(ts_provider_renew_max_retry_num);
using namespace dingodb;
static int64_t g_now = 1700000000000ll;   // ms
static mvcc::TsProvider* g_p = nullptr; static std::vector<const void*>* g_seen;
// the nodes of the two lists become preemption points as soon as they are seen
__attribute__((no_sanitize("thread"))) static void watch() { if (!sched_active() || !g_p) return; auto* l = g_p->batch_ts_list_.get(); const void* a[2] = {*(void**)&l->head_, *(void**)&l->dead_head_};
  for (int k = 0; k < 2; ++k) for (const mvcc::BatchTs* n = (const mvcc::BatchTs*)a[k]; n; n = *(mvcc::BatchTs* const*)&n->next) { bool s = false; for (auto* x : *g_seen) if (x == n) s = true; if (!s) { g_seen->push_back(n); sched_watch(n, sizeof(*n)); } } }
extern "C" int64_t shim_now_us() { watch(); return g_now * 1000; }
static void watch_list() { auto* l = g_p->batch_ts_list_.get(); for (const void* a : {(const void*)&l->head_, (const void*)&l->tail_, (const void*)&l->dead_head_, (const void*)&l->dead_tail_, (const void*)&l->min_valid_ts_}) sched_watch(a, 8); }
// ---- coordinator
struct Grant { int64_t s, e, phys, made; };
static std::vector<Grant>* g_grants; static int64_t g_phys = 1700000000000ll, g_log = 0, g_pushed = 0; static int g_faults = 0; static bool g_down = false; static int g_leader = 0;
static brpc::Channel* g_ch[2]; static int g_symphys = 1; static int64_t g_gap = 0;
static int64_t compose(int64_t p, int64_t l) { return (p << 18) + l; }
extern "C" const void* shim_method(const void*, const void*) { static int m; return &m; }
extern "C" void shim_rpc(void* ch, void* c, const void* q, void* r) {
  auto* cntl = (brpc::Controller*)c; auto* req = (const pb::meta::TsoRequest*)q; auto* resp = (pb::meta::TsoResponse*)r;
  if (g_down) { cntl->SetFailed(1, "down"); return; }
  if (g_faults > 0) switch (sym_choice("rpc", 4)) { case 1: --g_faults; cntl->SetFailed(1, "lost"); return; case 2: --g_faults; g_leader = 1 - g_leader; break; case 3: --g_faults; resp->mutable_error()->set_errcode(pb::error::EINTERNAL); return; default: break; }
  if (ch != g_ch[g_leader]) { resp->mutable_error()->set_errcode(pb::error::ERAFT_NOTLEADER); sym_cover("redirected"); return; }
  sym_assert(req->op_type() == pb::meta::OP_GEN_TSO && req->count() > 0, "the store asks the coordinator for new timestamps");
  if (sched_active()) sched_yield_point();
  resp->mutable_error()->set_errcode(pb::error::OK);
  int64_t gap = g_symphys ? g_gap : 0; if (gap) g_log = 0; g_gap = 0; g_phys += gap; int64_t n = req->count();
  resp->mutable_start_timestamp()->set_physical(g_phys); resp->mutable_start_timestamp()->set_logical(g_log); resp->set_count(n);
  g_grants->push_back({compose(g_phys, g_log), compose(g_phys, g_log + n), g_phys, g_now}); g_log += n; if (sched_active()) sched_progress();
}
extern "C" int bthread_usleep(uint64_t) { if (sched_active()) sched_yield_point(); return 0; }
namespace dingodb {
const ::google::protobuf::ServiceDescriptor* CoordinatorInteraction::GetServiceDescriptor(pb::common::CoordinatorServiceType) { return (const ::google::protobuf::ServiceDescriptor*)&g_leader; }
int CoordinatorInteraction::GetLeader() { return leader_index_.load(); }
void CoordinatorInteraction::NextLeader(int i) { leader_index_ = (i + 1) % 2; }
// ---- one worker, tasks in order
static std::deque<TaskRunnablePtr>* g_q; static bool g_running = false, g_worker_ok = true;
static void drain(void*) { while (!g_q->empty()) { auto t = g_q->front(); g_q->pop_front(); t->Run(); if (!g_grants->empty()) g_pushed = g_grants->back().phys; watch(); } g_running = false; }
TaskRunnable::TaskRunnable() {} TaskRunnable::~TaskRunnable() {}
Worker::Worker(NotifyFuncer) {} Worker::~Worker() {} bool Worker::Init() { return true; } void Worker::Destroy() {}
bool Worker::Execute(TaskRunnablePtr t) { g_q->push_back(t); if (!sched_active()) { drain(nullptr); return true; } if (!g_running) { g_running = true; sched_spawn(drain, nullptr); } return true; }
}
// ---- callers
struct Got { int64_t ts; int beg, end; }; static std::vector<Got>* g_got; static int g_seq = 0; static int64_t g_min = 0, g_asked = 0; static int g_failed = 0;
static void get(int64_t after) {
  int beg = ++g_seq; size_t fixed = g_got->size(); int64_t min = g_min, now = g_now, phys = g_pushed; (void)fixed;
  int64_t ts = g_p->GetTs(after); int end = ++g_seq;
  if (ts == 0) { ++g_failed; sym_cover("refused"); int64_t lim = after > g_asked ? after : g_asked; size_t k = g_grants->size();   // the last renewal is not tried any more, and of a batch only the first timestamp may be
    sym_assert(g_down || k >= 2 && (*g_grants)[k - 2].s <= lim, "a store with a reachable coordinator gets a timestamp"); return; }
  sym_cover("got"); if (!g_grants->empty()) { bool in = false; for (auto& g : *g_grants) in = in | ((ts >= g.s) & (ts < g.e) & (g.made + 3000 >= now) & (g.phys + 3000 >= phys)); sym_assert(in, "a timestamp comes from a recent batch of the coordinator"); } else sym_fail("a timestamp nobody granted");
  sym_assert((ts > after) & (ts > min), "a timestamp is above the asked and the smallest valid one");
  for (auto& o : *g_got) { sym_assert(o.ts != ts, "no timestamp is given twice"); if (o.end < beg) sym_assert(o.ts < ts, "a later request gets a later timestamp"); }
  g_got->push_back({ts, beg, end}); sym_observe("ts", ts);
}
static void setmin(int64_t v) { if (v > g_asked) g_asked = v; g_p->SetMinValidTs(v); if (v > g_min) g_min = v; }
static std::shared_ptr<mvcc::TsProvider>* g_keep;
static void boot() { sched_step_limit(60000);
  g_seen = new std::vector<const void*>(); g_grants = new std::vector<Grant>(); g_got = new std::vector<Got>(); g_q = new std::deque<TaskRunnablePtr>(); FLAGS_ts_provider_batch_size = 2; FLAGS_ts_provider_max_retry_num = 3; FLAGS_ts_provider_renew_max_retry_num = 2;
  auto ci = std::make_shared<CoordinatorInteraction>(); for (int i = 0; i < 2; ++i) { auto c = std::make_shared<brpc::Channel>(); g_ch[i] = c.get(); ci->channels_.push_back(c); }
  g_keep = new std::shared_ptr<mvcc::TsProvider>(mvcc::TsProvider::New(ci)); g_p = g_keep->get(); sym_assert(g_p->Init(), "starts");
}
static int64_t near(const char* n) { int64_t b = compose(g_phys, g_log); return (int64_t)sym_in(n, (uint64_t)(b - (4ll << 18)), (uint64_t)(b + (2ll << 18))); }
static void counts() { auto* l = g_p->batch_ts_list_.get(); sym_assert(l->ActualCount() == l->ActiveCount() && l->ActualDeadCount() == l->DeadCount(), "every batch is in exactly one of the two lists"); }
static void history() {
  boot(); g_faults = (int)sym_param("faults", 1); int steps = (int)sym_param("steps", 4);
  for (int i = 0; i < steps; ++i) { g_gap = sym_flip("the time of the coordinator moves on") ? 4000 : 0; switch (sym_choice("event", 6)) {
    case 0: get(0); break;
    case 1: get(near("after")); break;
    case 2: setmin(near("min")); break;
    case 3: g_now += (int64_t[]){1500, 3000, 3001}[sym_choice("ms", 3)]; break;
    case 4: g_p->TriggerRenewBatchTs(); break;
    case 5: g_down = true; get(0); g_down = false; break;
  } }
  get(0); counts(); sym_cover("done");
}
// what came before: some batches, some of them used up or too old
static void past() {
  g_symphys = 0; bool few = sym_param("third", 0) != 0; int n = (int)sym_choice("batches", few ? 2 : 3); for (int i = 0; i < n; ++i) g_p->TriggerRenewBatchTs();
  int m = few ? 2 * (int)sym_choice("used up", 2) : (int)sym_choice("taken", 4); for (int i = 0; i < m; ++i) get(0);
  if (sym_flip("pause")) g_now += 4000; if (!few && sym_flip("fresh")) g_p->TriggerRenewBatchTs();
}
static void concurrent() {
  boot(); FLAGS_ts_provider_max_retry_num = 6; past(); int T = (int)sym_param("threads", 2); static int64_t after; after = sym_flip("past the batch") ? g_grants->empty() ? 0 : g_grants->back().e - 1 : 0;
  sched_init((int)sym_param("preempt", 2)); watch_list(); watch();
  sched_spawn([](void*) { watch(); get(0); if (sym_param("twice", 0)) get(0); }, nullptr); sched_spawn([](void*) { get(after); }, nullptr);
  if (T > 2) sched_spawn([](void*) { get(0); }, nullptr);
  switch (sym_param("third", 0)) { case 1: sched_spawn([](void*) { g_p->TriggerRenewBatchTs(); }, nullptr); break; case 2: { static int64_t v; v = g_grants->empty() ? compose(g_phys, 1) : g_grants->back().e - 1; sched_spawn([](void*) { setmin(v); }, nullptr); break; } }
  sched_join_all(); sym_assert(g_failed == 0, "every request is served"); get(0); counts(); g_now += 4000; get(0); sym_cover("done");
}
static void minvalid() {
  boot(); g_symphys = 0; static int64_t v[2]; v[0] = near("min"); v[1] = near("min"); if (sym_flip("batch")) g_p->TriggerRenewBatchTs();
  sched_init((int)sym_param("preempt", 2)); watch_list();
  for (int i = 0; i < 2; ++i) sched_spawn([](void* p) { setmin(*(int64_t*)p); }, &v[i]);
  sched_join_all(); g_phys += 1; g_log = 0; get(0); g_phys += 2; get(0); sym_cover("done");
}
extern "C" void harness_main() { switch (sym_param("part", 0)) { case 0: history(); break; case 1: concurrent(); break; case 2: minvalid(); break; } }
