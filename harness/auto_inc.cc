// C04: auto-increment ids.
#include "coordinator/auto_increment_control.h"
#include "sym.h"
using namespace dingodb; static uint64_t MAXV; typedef pb::coordinator_internal::MetaIncrement MI;
static const int64_t T1 = 7, T2 = 9;
struct Granted { int64_t table, s, e; };
static void history() {
  auto c = std::make_shared<AutoIncrementControl>(); auto f = std::make_shared<AutoIncrementControl>(); c->Init(); f->Init();
  std::vector<MI> pending; std::vector<Granted> out; int steps = (int)sym_param("steps", 5); bool wide = sym_param("wide", 0);
  auto apply = [&](size_t k) { MI m = pending[k]; pending.erase(pending.begin() + k); pb::meta::GenerateAutoIncrementResponse r; r.set_start_id(-1); r.set_end_id(-1); MI m2 = m; c->ApplyMetaIncrement(m, true, 1, 1, &r); f->ApplyMetaIncrement(m2, false, 1, 1, nullptr);
    int64_t a = -2, b = -2, t = m.auto_increment(0).id(); butil::Status sa = c->GetAutoIncrement(t, a), sb = f->GetAutoIncrement(t, b); sym_assert(sa.error_code() == sb.error_code() && a == b, "replicas agree after applying the same log");
    if (r.start_id() == -1 && r.end_id() == -1) return; sym_cover("granted"); int64_t s = r.start_id(), e = r.end_id(), n = m.auto_increment(0).increment().generate_count(); sym_assert(e > s && e - s >= n, "a grant covers the requested number of ids");
    for (auto& o : out) if (o.table == t) { sym_cover("two grants"); sym_assert(o.e <= s, "no id is granted twice"); } out.push_back({t, s, e}); sym_observe("s", s); sym_observe("e", e); };
  { MI m; int64_t st = (int64_t)sym_in("start", 0, MAXV); sym_assert(c->CreateAutoIncrement(T1, st, m).ok(), "create"); pending.push_back(m); apply(0); }
  for (int i = 0; i < steps; ++i) { MI m; butil::Status st;
    switch (sym_choice("op", 6)) {
      case 0: { uint32_t n = wide ? sym_u32("count") : (uint32_t)sym_in("count", 0, 100001), inc = wide ? (sym_flip("big") ? 65535 : 6) : (sym_flip("inc4") ? 4 : 1), off = wide ? (uint32_t)sym_in("off", 0, 70000) : 1; st = c->GenerateAutoIncrement(T1, n, inc, off, m); if (st.ok()) sym_assert(n > 0, "only positive counts are granted"); break; }
      case 1: st = c->UpdateAutoIncrement(T1, (int64_t)sym_in("new", 0, MAXV), false, m); break;
      case 2: st = c->CreateAutoIncrement(sym_flip("table") ? T2 : T1, (int64_t)sym_in("start", 0, MAXV), m); break;
      case 3: st = c->CreateOrUpdateAutoIncrement(sym_flip("table") ? T2 : T1, (int64_t)sym_in("start", 0, MAXV), m); break;
      case 4: { if (pending.empty()) sym_stop(); apply(sym_choice("which", pending.size())); break; }
      case 5: { auto sn = c->PrepareRaftSnapshot(); pb::coordinator_internal::MetaSnapshotFile file; auto g = std::make_shared<AutoIncrementControl>(); g->Init(); int64_t junk; { MI x; g->CreateAutoIncrement(T2, 1, x); g->ApplyMetaIncrement(x, false, 1, 1, nullptr); } sym_assert(c->LoadMetaToSnapshotFile(sn, file) && g->LoadMetaFromSnapshotFile(file), "snapshot"); c = g;
        for (int64_t t : {T1, T2}) { int64_t a = -1, b = -1; auto x = c->GetAutoIncrement(t, a), y = f->GetAutoIncrement(t, b); sym_assert(x.error_code() == y.error_code() && a == b, "a snapshot restores exactly the saved counters"); } (void)junk; sym_cover("restored"); break; }
    }
    if (m.auto_increment_size() > 0) { sym_assert(st.ok(), "a rejected request changes nothing"); pending.push_back(m); }
  }
  while (!pending.empty()) apply(0);
  MI m; sym_assert(c->GenerateAutoIncrement(T1, 3, 1, 1, m).ok(), "generate"); pending.push_back(m); apply(0);
}
// one grant: enough ids of the requested residue, no overflow
static void grant() {
  auto c = std::make_shared<AutoIncrementControl>(); c->Init(); MI m0; int64_t winc = (int64_t)sym_param("inc", 1), q = (int64_t)sym_in("q", 0, sym_param("maxq", 15)), rem = sym_param("fix", 0) ? (int64_t)sym_choice("r5", 3) * (winc / 2) : (int64_t)sym_in("r", 0, winc - 1), st = q * winc + rem; c->CreateAutoIncrement(T1, st, m0); c->ApplyMetaIncrement(m0, true, 1, 1, nullptr);
  uint32_t n = sym_u32("count"), inc = sym_flip("valid") ? (uint32_t)winc : (sym_flip("zero") ? 0 : 65536), off = sym_param("fix", 0) ? (uint32_t)(sym_choice("offc", 3) * (winc / 2) + 1) : sym_u32("off"); MI m; auto s = c->GenerateAutoIncrement(T1, n, inc, off, m); if (!s.ok()) { sym_assert(n == 0 || n > 100000 || off == 0 || off > 65535 || inc != winc, "valid requests are served"); sym_cover("rejected"); return; }
  sym_assert(inc == winc && n > 0 && off > 0, "invalid requests are rejected");
  pb::meta::GenerateAutoIncrementResponse r; c->ApplyMetaIncrement(m, true, 1, 1, &r); int64_t e = r.end_id(); sym_assert(r.start_id() == st, "grant starts at the counter"); sym_cover("granted");
  int64_t o = off > inc ? 1 : off; int64_t first = (o == inc ? (rem == 0 ? q * winc : (q + 1) * winc) : rem <= o ? q * winc + o : (q + 1) * winc + o);   // smallest id of the residue class at or after the counter
  if (winc == 1) first = st;
  int64_t d = e - (first + (int64_t)n * winc);
  sym_assert(d > -winc, "the granted interval holds the whole batch of the requested residue"); sym_assert(d <= winc, "no more ids than needed are consumed");
  sym_observe("e", e);
}
extern "C" void harness_main() { MAXV = sym_param("maxv", 1 << 20); if (sym_param("part", 0) == 0) history(); else grant(); }
