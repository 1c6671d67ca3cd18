// C11: histories of the raft log storage (several regions, two clients, restarts and crashes) against a plain map of entries.
#include "common/context.h"
#include "config/config_helper.h"
#include "log/rocks_log_storage.h"
#include "rocks_mem.h"
#include "symsched.h"
using namespace dingodb; using namespace dingodb::wal;
namespace braft { bool FLAGS_raft_sync = true; }
namespace dingodb { namespace wal { DECLARE_int32(rocks_log_write_wait_time_ms); DECLARE_bool(rocks_log_enable_get_term_cache); } }
namespace dingodb { std::string ConfigHelper::GetBlockCacheValue() { return "1"; } }
static bthread::QueueBase* queue = nullptr; static bool inline_q = true;
extern "C" void shim_register_queue(bthread::QueueBase* q) { queue = q; }
extern "C" void shim_queue_pushed(bthread::QueueBase* q) { if (inline_q) q->RunOnce(); else sched_progress(); }
struct E { int64_t index, term; int type; std::string data; bool maybe = false; };
struct R { int64_t id, raft = 0, vec = 0, rm_raft = 0, rm_vec = 0, last = 0, term = 1; std::vector<E> log; RocksLogStorageWrapper* w = nullptr; braft::ConfigurationManager* cm = nullptr; };
static R rs[2]; static int nr; static LogStoragePtr st; static bool idx; static int64_t base;
static void boot() { st = RocksLogStorage::New("log"); st->RegisterClientType(ClientType::kRaft); if (idx) st->RegisterClientType(ClientType::kVectorIndex); sym_assert(st->Init(), "the log storage starts"); for (int i = 0; i < nr; ++i) { R& r = rs[i]; r.cm = new braft::ConfigurationManager(); r.w = new RocksLogStorageWrapper(r.id, st); sym_assert(r.w->init(r.cm) == 0, "the log of a region is opened"); } }
static bool same(const E& e, const LogEntry& l) { return l.index == e.index && l.term == e.term && (int)l.type == e.type && l.out_data.size() == e.data.size() && (e.type != 2 || l.out_data == e.data); }
static int64_t keep_must(R& r) { int64_t k = r.raft; if (idx && r.vec < k) k = r.vec; return k; }
static int64_t keep_rm(R& r) { int64_t k = r.rm_raft; if (idx && r.rm_vec < k) k = r.rm_vec; return k; }
static void check(R& r, bool restarted) {
  std::vector<E> now; bool began = false;
  for (auto& e : r.log) { auto l = st->GetEntry(r.id, e.index); if (!l) { sym_assert(e.maybe && !began, "an entry stays in the log until it is truncated"); continue; } sym_assert(same(e, *l), "the log returns each entry as it was appended"); began = true; e.maybe = false; now.push_back(e); }
  r.log = now; int64_t first = r.w->first_log_index(), last = r.w->last_log_index();
  if (now.empty()) sym_assert(last == first - 1, "an empty log has no index"); else { sym_assert(first == now[0].index, "the first index is the first entry"); sym_assert(last == now.back().index, "the last index is the last entry"); }
  for (auto& e : now) if (e.index >= r.raft) { sym_assert(r.w->get_term(e.index) == e.term, "the term of an entry is the one it was appended with"); auto* b = r.w->get_entry(e.index); sym_assert(b && b->id.index == e.index && b->id.term == e.term && (int)b->type == e.type && (e.type != 2 || b->data.s == e.data), "raft reads each entry as it was appended"); if (e.type == 3) sym_assert(b->peers && b->peers->size() == 1, "raft reads the peers of a configuration entry"); b->Release(); }
  auto all = st->GetEntries(r.id, 0, INT64_MAX); sym_assert(all.size() == now.size(), "the log has no other entries"); for (size_t i = 0; i < all.size() && i < now.size(); ++i) sym_assert(same(now[i], *all[i]), "the entries are read in their order");
  if (!now.empty()) { for (int k = 0; k < 4; ++k) { int64_t a = now[0].index + k / 2, z = now.back().index + k % 2; size_t n = 0; for (auto& e : now) if (e.type == 2 && e.index >= a && e.index < z) ++n; auto d = st->GetDataEntries(r.id, a, z); sym_assert(d.size() == n, "a range of the log returns its data entries"); for (auto& x : d) sym_assert(x->type == LogEntryType::kEntryTypeData && x->index >= a && x->index < z, "a range of the log returns only its data entries"); bool m = st->HasSpecificLog(r.id, a, z, [](const LogEntry& l) { return l.type == LogEntryType::kEntryTypeData; }); sym_assert(m == (n > 0), "looking for an entry of a range finds it"); } }
  if (restarted) { size_t n = 0; for (auto& e : now) if (e.type == 3) ++n; sym_assert(r.cm->c.size() == n, "a restart finds every membership change of the log"); }
  sym_assert(rocks::iters == 0, "no read of the log keeps the storage pinned");
}
static braft::LogEntry* entry(const E& e) { auto* b = new braft::LogEntry(); b->AddRef(); b->type = (braft::EntryType)e.type; b->id.index = e.index; b->id.term = e.term; if (e.type == 2) b->data.append(e.data); else { b->peers = new std::vector<braft::PeerId>(1); } return b; }
static void append(R& r, int n, bool nt, bool conf, bool single) { std::vector<braft::LogEntry*> v; std::vector<E> es; int64_t at = r.log.empty() ? r.w->last_log_index() : r.log.back().index; if (at < r.raft - 1) at = r.raft - 1;
  for (int i = 0; i < n; ++i) { E e; e.index = ++at; if (nt && i == 0) ++r.term; e.term = r.term; e.type = conf && i == n - 1 ? 3 : 2; if (e.type == 2) e.data = sym_str("data", 2); else e.data = std::string(sizeof(braft::PeerId), 'x'); es.push_back(e); v.push_back(entry(e)); }
  if (single) sym_assert(r.w->append_entry(v[0]) == 0, "an entry is appended"); else sym_assert(r.w->append_entries(v, nullptr) == n, "all entries are appended"); for (auto& e : es) r.log.push_back(e); sym_cover("append"); }
static void append(R& r) { int k = idx ? 1 : (int)sym_choice("entries", 3); bool nt = sym_flip("new term"), c = sym_flip("membership change"); append(r, k == 2 ? 2 : 1, nt, c, k == 0); }
static int64_t pick(R& r, int64_t extra) { int64_t lo = r.log.empty() ? base : r.log[0].index, hi = r.log.empty() ? base : r.log.back().index; return lo - 1 + (int64_t)sym_choice("index", (unsigned)(hi - lo + 2 + extra)); }
static void trunc(R& r) { int64_t m = keep_must(r), x = keep_rm(r); std::vector<E> v; for (auto e : r.log) { if (e.index < x) continue; if (e.index < m) e.maybe = true; v.push_back(e); } if (v.size() < r.log.size()) sym_cover("prefix truncated"); r.log = v; }
static void step(R& r) {
  switch (sym_choice("op", idx ? 5 : 4)) {
    case 0: append(r); break;
    case 1: { int64_t k = pick(r, idx ? 1 : 2); if (k < r.raft || k < 1 || (idx && k > r.w->last_log_index() + 1)) break; r.raft = r.rm_raft = k; sym_assert(r.w->truncate_prefix(k) == 0, "truncation succeeds"); trunc(r); break; }
    case 2: { int64_t k = pick(r, 0); if (k < r.raft - 1) break; int64_t last = r.log.empty() ? r.w->last_log_index() : r.log.back().index; if (k > last || r.log.empty() || k < r.log[0].index - 1) break; sym_assert(r.w->truncate_suffix(k) == 0, "truncation succeeds"); while (!r.log.empty() && r.log.back().index > k) { r.log.pop_back(); sym_cover("suffix truncated"); } r.term++; break; }
    case 3: { int64_t k = pick(r, 3); if (k < r.raft || k < 1) break; sym_assert(r.w->reset(k) == 0, "reset succeeds"); r.log.clear(); r.rm_raft = r.rm_vec = 0; r.raft = k; sym_assert(r.w->first_log_index() == k && r.w->last_log_index() == k - 1, "a reset log starts at the given index"); sym_cover("reset"); break; }
    case 4: { int64_t k = sym_flip("none needed") ? (sym_flip("all needed") ? 0 : INT64_MAX) : pick(r, 1); r.vec = r.rm_vec = k; sym_assert(st->TruncatePrefix(ClientType::kVectorIndex, r.id, k) == 0, "truncation succeeds"); trunc(r); sym_cover("vector index truncates"); break; }
  }
}
static void restart() { boot(); for (int i = 0; i < nr; ++i) { rs[i].rm_raft = rs[i].rm_vec = 0; } }
static rocks::Disk before;
// the storage is used by several regions at the same time, and dies at any disk operation
static bool done[4], acked[4], fired; static int live;
static void t_exec(void*) { while (live > 0) if (!queue->RunOnce()) sched_pause(); }
static void fin(int i) { done[i] = true; sched_progress(); }
static void t_a(void*) { R& r = rs[0]; append(r, 1, false, false, true); fin(0); int64_t k = r.log.back().index - 1; sym_assert(r.w->truncate_suffix(k) == 0, "truncation succeeds"); r.log.pop_back(); append(r, 1, true, true, false); fin(1); --live; sched_progress(); }
static void t_b(void*) { append(rs[1], 2, true, false, false); fin(2); --live; sched_progress(); }
static void t_c(void*) { sym_assert(st->TruncatePrefix(ClientType::kVectorIndex, rs[0].id, base + 1) == 0 && rs[0].w->truncate_prefix(base + 1) == 0, "truncation succeeds"); fin(3); --live; sched_progress(); }
static void conc() {
  inline_q = false; live = sym_param("vec", 0) ? 3 : 2; rocks::crash_at = rocks::ops + (int)sym_choice("dies at disk operation", 14); rocks::keep_unsynced = sym_flip("unsynced data survives"); rocks::on_op = sched_progress; rocks::on_crash = [] { fired = true; for (int i = 0; i < 4; ++i) acked[i] = done[i]; };
  sched_init((int)sym_param("preempt", 1)); sched_spawn(t_a, nullptr); sched_spawn(t_b, nullptr); if (live == 3) sched_spawn(t_c, nullptr); sched_spawn(t_exec, nullptr); sched_join_all(); inline_q = true;
  bool vec = sym_param("vec", 0) != 0; std::vector<E> v; for (auto& e : rs[0].log) if (!vec || e.index > base) v.push_back(e); std::vector<E> full0 = rs[0].log; rs[0].log = v; if (vec) rs[0].raft = rs[0].vec = base + 1; for (int i = 0; i < 2; ++i) check(rs[i], false);
  if (!fired) { sym_cover("no crash"); rocks::cur = rocks::dur; boot(); for (int i = 0; i < 2; ++i) check(rs[i], true); return; }
  sym_cover("crash"); rocks::cur = rocks::dur = rocks::crash_img; boot();
  auto l = st->GetEntries(rs[0].id, 0, INT64_MAX), m = st->GetEntries(rs[1].id, 0, INT64_MAX); auto has = [&](std::vector<LogEntryPtr>& x, const E& e) { for (auto& y : x) if (same(e, *y)) return true; return false; };
  for (auto& e : full0) { bool fresh = e.index == full0.back().index; if (vec && e.index == base) continue; sym_assert(has(l, e) || (fresh && !acked[1]), "an acknowledged entry survives a crash"); }
  if (vec && acked[3]) sym_assert(l.empty() || l[0]->index > base, "an acknowledged truncation survives a crash");
  if (acked[0] && !acked[1]) for (auto& x : l) sym_assert(x->index <= full0.back().index, "no entry appears which was not appended");
  for (size_t i = 0; i < rs[1].log.size(); ++i) { bool old = i < 3; sym_assert(has(m, rs[1].log[i]) || (!old && !acked[2]), "an acknowledged entry survives a crash"); }
}
extern "C" void harness_main() {
  FLAGS_rocks_log_write_wait_time_ms = 0; idx = sym_param("index", 1); nr = (int)sym_param("regions", 1); FLAGS_rocks_log_enable_get_term_cache = !sym_param("conc", 0) && sym_flip("term cache");
  static const int64_t bs[] = {1, 254, 65534, 0x7ffffffe, 0xfffffffe, 0x7ffffffffffe}; base = bs[sym_choice("base", sym_param("bases", 2))]; rs[0].id = 255; rs[1].id = 256;
  boot(); for (int i = 0; i < nr; ++i) { R& r = rs[i]; if (base > 1) { r.w->reset(base); r.raft = base; } append(r, 2, false, true, false); append(r, 1, true, false, false); } rocks::dur = rocks::cur; if (sym_param("conc", 0)) { conc(); return; }
  int steps = (int)sym_param("steps", 2), crash = (int)sym_param("crash", 0);
  for (int s = 0; s < steps; ++s) { R& r = rs[sym_choice("region", nr)]; bool last = s + 1 == steps;
    if (crash && last) { R old = r; rocks::crash_at = rocks::ops + (int)sym_choice("dies at disk operation", 3); rocks::keep_unsynced = sym_flip("unsynced data survives"); step(r); if (rocks::crash_at >= rocks::ops) break; rocks::cur = rocks::crash_img; rocks::dur = rocks::cur; sym_cover("crash");
      R nw = r; boot(); r.rm_raft = r.rm_vec = 0; r.w = rs[&r - rs].w; auto l = st->GetEntries(r.id, 0, INT64_MAX);
      auto eq = [&](std::vector<E>& v) { size_t j = 0; for (auto& e : v) { if (j < l.size() && same(e, *l[j])) { ++j; continue; } if (!(e.maybe && j == 0)) return false; } return j == l.size(); };
      if (eq(nw.log)) r.log = nw.log; else { r.log = old.log; bool in = eq(old.log); sym_assert(in, "after a crash the log is the one before or after the operation that was running"); }
      for (int i = 0; i < nr; ++i) check(rs[i], true); return; }
    step(r); for (int i = 0; i < nr; ++i) check(rs[i], false); }
  rocks::cur = rocks::dur; restart(); for (int i = 0; i < nr; ++i) check(rs[i], true); sym_cover("restart");
}
