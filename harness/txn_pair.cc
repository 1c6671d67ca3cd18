// One request that addresses two keys, against arbitrary protocol states of both: it takes effect on both or on none.
#include "txn.h"
using namespace txn;
static const std::string A = "k", B = "m";
static KeyState s0[2], s1[2];
static const Rec* commit_of(const KeyState& s, int64_t t) { for (auto& r : s.recs) if (r.op != kRollback && sym_fork(r.sts == t)) return &r; return nullptr; }
static const Rec* rollback_of(const KeyState& s, int64_t t) { for (auto& r : s.recs) if (r.op == kRollback && sym_fork(r.sts == t)) return &r; return nullptr; }
static const Rec* at(const KeyState& s, int64_t c) { for (auto& r : s.recs) if (sym_fork(r.cts == c)) return &r; return nullptr; }
static bool mine(const KeyState& s, int64_t t) { return s.lock.on && sym_fork(s.lock.ts == t); }
static bool both_same() { return same(s0[0], s1[0]) & same(s0[1], s1[1]); }
static void unchanged(const char* m) { sym_assert(both_same(), m); }
static void after() { s1[0] = look(A); s1[1] = look(B); }
static std::vector<int> kinds() { int m = (int)sym_param("lk", 3); std::vector<int> v; for (int i = 0; i < 6; ++i) if (m >> i & 1) v.push_back(i); return v; }
// one transaction ends the same way on both keys and at one timestamp
static void together(const KeyState* s) {
  for (auto& x : s[0].recs) for (auto& y : s[1].recs) { bool e = x.sts == y.sts; sym_assume(!e || (x.op == kRollback) == (y.op == kRollback)); if (x.op != kRollback && y.op != kRollback) { sym_assume((x.cts == y.cts) == e); } }
  for (int i = 0; i < 2; ++i) { auto& l = s[i].lock; if (l.on) for (auto& y : s[1 - i].recs) if (y.op != kRollback) sym_assume(y.sts != l.ts || (l.type != kLock && y.cts >= l.min_commit && y.cts > l.fut)); for (auto& x : s[i].recs) if (l.on && x.op != kRollback) for (auto& y : s[1 - i].recs) sym_assume(y.op == kRollback || y.sts != l.ts || y.cts > x.cts); } }
static void atomic_after() {
  for (auto& x : s1[0].recs) for (auto& y : s1[1].recs) if (x.sts == y.sts) { sym_assert((x.op == kRollback) == (y.op == kRollback), "a transaction does not commit on one key and roll back on the other"); if (x.op != kRollback && y.op != kRollback) sym_assert(x.cts == y.cts, "a transaction commits at one timestamp on all keys"); } }
static void step_prewrite(int64_t t) {
  int mode = (int)sym_param("mode", 0); Prewrite q; q.ts = t; q.ttl = 77; q.primary = A; q.one_pc = mode == 1; if (mode == 2) { q.async = true; q.secondaries = {B}; } int64_t access = 0;
  if (mode) { access = ts_var("max_read_ts"); sym_assume(access < kMaxTs); region->SetTxnAccessMaxTs(access); if (sym_param("bounded", 0)) q.max_commit = ts_var("max_commit"); }
  bool pia = mode && sym_flip("insert"); q.muts = {{pia ? kPia : kPut, A, "A"}, {kDelete, B, ""}}; bool exists = false; if (pia) for (auto& r : s0[0].recs) if (r.op != kRollback) { exists = r.op == kPut; break; } bool pess = false; for (int i = 0; i < 2; ++i) if (s0[i].lock.on && s0[i].lock.type == kLock && mine(s0[i], t)) pess = true; if (pess) { if (!mine(s0[0], t) || !mine(s0[1], t)) sym_stop(); sym_assume(s0[0].lock.fut == s0[1].lock.fut); q.pess = true; q.fut = s0[0].lock.fut; }
  bool held[2], rolled[2], done[2], locked[2], newer[2]; int64_t dcts = 0; for (int i = 0; i < 2; ++i) { held[i] = mine(s0[i], t); rolled[i] = rollback_of(s0[i], t); auto* d = commit_of(s0[i], t); done[i] = d; if (d) dcts = d->cts; locked[i] = s0[i].lock.on && !held[i]; newer[i] = false; for (auto& r : s0[i].recs) if (r.op != kRollback && sym_fork(r.cts >= t)) newer[i] = true; }
  q.run(); after(); atomic_after(); sym_observe("ok", q.ok); sym_cover(q.ok ? "accepted" : "refused");
  if (!q.ok) { unchanged("a refused prewrite of several keys changes none of them"); if (!locked[0] && !locked[1] && !newer[0] && !newer[1] && !rolled[0] && !rolled[1] && !exists) sym_fail("a prewrite without any conflict is accepted"); return; }
  if (done[0] || done[1]) { unchanged("a repeated prewrite of a committed transaction changes nothing"); if (mode == 1) sym_assert(q.p.one_pc_commit_ts() == dcts, "a repeated one-phase commit reports its commit timestamp"); return; }
  for (int i = 0; i < 2; ++i) { if (rolled[i]) sym_fail("a rolled back transaction cannot prewrite again"); if (locked[i]) sym_fail("a key locked by another transaction cannot be prewritten"); if (newer[i] && !q.pess && !held[i]) sym_fail("a prewrite is refused when a version was committed at or after its start"); }
  if (exists && !held[0]) sym_fail("an insert is refused when the key exists");
  int64_t pc = q.p.one_pc_commit_ts();
  if (pc > 0) { sym_assert(mode == 1, "only a one-phase commit reports a commit timestamp"); for (int i = 0; i < 2; ++i) { auto* r = commit_of(s1[i], t); sym_assert(r && r->cts == pc && r->op == (i ? kDelete : kPut) && (i || r->value == "A"), "a one-phase commit commits every key at the acknowledged timestamp"); if (mine(s1[i], t)) sym_fail("a one-phase commit leaves no lock"); } sym_assert(pc > access && pc > t, "a one-phase commit is ordered after every read served before it"); if (q.max_commit) sym_assert(pc <= q.max_commit, "a one-phase commit stays below its upper bound"); sym_cover("one phase"); return; }
  int64_t need = 0; bool all_async = true; for (int i = 0; i < 2; ++i) { if (!mine(s1[i], t)) sym_fail("an accepted prewrite locks every key"); auto& l = s1[i].lock; if (held[i] && s0[i].lock.type != kLock) { sym_assert(same(s0[i].lock, l), "a repeated prewrite keeps the lock"); } else sym_assert(l.type == (i ? kDelete : kPut) && (i || l.value == "A"), "an accepted prewrite stores its mutations"); all_async = all_async && l.async; if (l.async && i == 0) sym_assert(l.secondaries == (held[0] && s0[0].lock.type != kLock ? s0[0].lock.secondaries : q.secondaries), "the primary lock of an async commit names every secondary"); if (l.async && l.min_commit > need) need = l.min_commit; if (commit_of(s1[i], t)) sym_fail("a key is committed only with all others"); }
  if (mode == 2) { int64_t m = q.p.min_commit_ts(); if (m > 0) { sym_assert(all_async, "an async commit is promised only when every lock says so"); sym_assert(m >= need, "the promised minimum commit timestamp covers every key"); if (sym_fork(m == need)) sym_cover("async"); }
    else { sym_assert(!s1[0].lock.async || !s1[1].lock.async || q.max_commit > 0, "when every lock is an async-commit lock the answer says so, also when the request is repeated (otherwise the client would pick another commit timestamp than the resolvers)"); } } }
static void step_commit(int64_t t, bool resolve) {
  int64_t c = ts_var("commit_ts"); sym_assume(c > t); bool held[2]; const Rec* done[2]; bool rolled[2];
  for (int i = 0; i < 2; ++i) { held[i] = mine(s0[i], t); rolled[i] = rollback_of(s0[i], t); done[i] = commit_of(s0[i], t); if (done[i] && !sym_fork(done[i]->cts == c)) sym_stop(); for (auto& r : s0[i].recs) { if (r.op != kRollback && !(done[i] == &r)) sym_assume(r.cts != c); if (held[i] && r.op != kRollback) sym_assume(r.cts < c); } if (held[i] && s0[i].lock.fut) sym_assume(c > s0[i].lock.fut); if (held[i] && resolve) sym_assume(c >= s0[i].lock.min_commit); if (held[i] && s0[i].lock.type == kLock && resolve) sym_stop(); }
  if (resolve && (rolled[0] || rolled[1])) sym_stop();   // a resolver commits only transactions that are not rolled back
  bool ok; if (resolve) { Resolve q; q.ts = t; q.cts = c; if (sym_flip("infos")) q.infos = {{t, c}}; else q.keys = {A, B}; ok = q.run(); } else { txn::Commit q; q.ts = t; q.cts = c; q.keys = {A, B}; ok = q.run(); }
  after(); atomic_after(); sym_observe("ok", ok); sym_cover(ok ? "accepted" : "refused");
  if (!ok) { unchanged("a refused commit of several keys changes none of them"); return; }
  for (int i = 0; i < 2; ++i) { auto* r = commit_of(s1[i], t); if (held[i]) { sym_assert(r && r->cts == c && r->op == s0[i].lock.type && (r->op != kPut || r->value == s0[i].lock.value), "an acknowledged commit of several keys commits every one with its prewritten value"); if (mine(s1[i], t)) sym_fail("a commit releases every lock"); } else if (!resolve) sym_assert(done[i] && r, "an acknowledged commit of several keys holds on every one"); else sym_assert(same(s0[i], s1[i]), "resolving leaves keys without a lock of the transaction alone"); } if (ok && held[0] && held[1]) sym_cover("both committed"); }
static void step_rollback(int64_t t, bool resolve) {
  bool held[2]; const Rec* done[2]; for (int i = 0; i < 2; ++i) { held[i] = mine(s0[i], t); done[i] = commit_of(s0[i], t); } if (done[0] || done[1]) sym_stop();   // a committed transaction is not rolled back by clients or resolvers
  bool ok; if (resolve) { Resolve q; q.ts = t; q.cts = 0; if (sym_flip("infos")) q.infos = {{t, 0}}; else q.keys = {A, B}; ok = q.run(); } else { txn::Rollback q; q.ts = t; q.keys = {A, B}; ok = q.run(); }
  after(); atomic_after(); sym_observe("ok", ok); if (!ok) { unchanged("a refused rollback of several keys changes none of them"); return; }
  for (int i = 0; i < 2; ++i) { if (mine(s1[i], t)) sym_fail("an acknowledged rollback of several keys leaves no lock on any"); if (!resolve || (held[i] && s0[i].lock.type != kLock)) { auto* o = at(s1[i], t); sym_assert(o && (o->op != kRollback || o->sts == t), "an acknowledged rollback is recorded on every key"); } if (resolve && !held[i]) sym_assert(same(s0[i], s1[i]), "resolving leaves keys without a lock of the transaction alone"); } sym_cover("rolled back"); }
static void step_secondary(int64_t t) {
  Secondary q; q.ts = t; q.keys = {A, B}; bool held[2]; const Rec* done[2]; for (int i = 0; i < 2; ++i) { held[i] = mine(s0[i], t); done[i] = commit_of(s0[i], t); if (held[i]) sym_assume(s0[i].lock.type != kLock); } for (int i = 0; i < 2; ++i) if (done[i] && !held[1 - i] && !done[1 - i]) sym_stop();   /* committed: every key was prewritten */ q.run(); after(); atomic_after(); if (!q.ok) { unchanged("a refused check changes nothing"); return; }
  if (q.p.commit_ts() > 0) { sym_assert((done[0] && done[0]->cts == q.p.commit_ts()) || (done[1] && done[1]->cts == q.p.commit_ts()), "a reported commit timestamp is real"); sym_cover("committed"); }
  else if (q.p.locks_size() == 2) { sym_assert(held[0] && held[1], "reported locks exist"); unchanged("locked secondaries are left alone"); sym_cover("all locked"); }
  else { bool dead = false; for (int i = 0; i < 2; ++i) { if (done[i]) sym_fail("a committed secondary reports its commit timestamp"); auto* o = at(s1[i], t); if (o && (o->op != kRollback || sym_fork(o->sts == t)) && !mine(s1[i], t)) dead = true; } sym_assert(dead, "when not every secondary is locked the transaction can never be committed afterwards"); sym_cover("missing"); } }
extern "C" void harness_main() {
  FLAGS_max_short_value_in_write_cf = 1; node::make(); region = node::add_region(*node::cur, 1, "a", "z"); auto ks = kinds(); int recs = (int)sym_param("recs", 1);
  s0[0] = any_key(A, A, recs, 6, false, &ks); s0[1] = any_key(B, A, (int)sym_param("recs2", recs), 6, false, &ks); together(s0); int64_t t = ts_var("start_ts");
  switch (sym_param("op", 0)) { case 0: step_prewrite(t); break; case 1: step_commit(t, false); break; case 2: step_commit(t, true); break; case 3: step_rollback(t, false); break; case 4: step_rollback(t, true); break; case 5: step_secondary(t); break; }
}
