// One request against an arbitrary state of a key that the protocol can produce (an inductive step: every history is a sequence of them).
#include "txn.h"
using namespace txn;
static const std::string K = "k";
static KeyState s0, s1; static const std::vector<int> kPessKinds = {3, 4};
static const Rec* commit_of(const KeyState& s, int64_t t) { for (auto& r : s.recs) if (r.op != kRollback && sym_fork(r.sts == t)) return &r; return nullptr; }
static const Rec* rollback_of(const KeyState& s, int64_t t) { for (auto& r : s.recs) if (r.op == kRollback && sym_fork(r.sts == t)) return &r; return nullptr; }
static const Rec* at(const KeyState& s, int64_t c) { for (auto& r : s.recs) if (sym_fork(r.cts == c)) return &r; return nullptr; }
static bool mine(const KeyState& s, int64_t t) { return s.lock.on && sym_fork(s.lock.ts == t); }
// what must hold after any request at all.  who: the transaction the request speaks for (the only one whose outcome may change)
static void invariants(int64_t who, bool may_decide) {
  for (auto& r : s0.recs) { const Rec* f = at(s1, r.cts);
    if (r.op != kRollback) sym_assert(f && same(*f, r), "a committed version is never changed or removed");
    else sym_assert(f && (same(*f, r) || (f->op != kRollback && may_decide && f->sts == who && r.sts != who)), "a rollback record stays (only a version committed at the same timestamp by another transaction may replace it)"); }
  int added = 0;
  for (auto& r : s1.recs) if (!at(s0, r.cts)) { ++added; sym_assert(may_decide && r.sts == who, "only the addressed transaction gets an outcome"); sym_assert(r.op == kRollback ? r.cts == r.sts : r.cts > r.sts, "an outcome has a sensible timestamp"); }
  sym_assert(added <= 1, "at most one outcome is added");
  for (size_t i = 0; i < s1.recs.size(); ++i) for (size_t j = i + 1; j < s1.recs.size(); ++j) sym_assert(s1.recs[i].sts != s1.recs[j].sts, "a transaction has one outcome on a key: never committed twice, never both committed and rolled back");
  if (s1.lock.on) { for (auto& r : s1.recs) sym_assert(r.sts != s1.lock.ts || (r.op == kRollback && s1.lock.type == kLock), "a transaction with an outcome on a key holds no lock on it"); }
  if (s0.lock.on && s1.lock.on) sym_assert(s1.lock.ts == s0.lock.ts, "a lock is never handed to another transaction while it is held");
  if (s0.lock.on && !s1.lock.on) sym_assert(may_decide && s0.lock.ts == who, "a lock is removed only by a request for its own transaction"); }
static void unchanged(const char* m) { sym_assert(same(s0, s1), m); }
static void step_prewrite(int64_t t) {
  Prewrite q; q.ts = t; q.ttl = 77; q.primary = K; int op = (int)sym_choice("mut", 3); q.pess = s0.lock.on && s0.lock.type == kLock ? sym_flip("pess") : false; if (s0.lock.fut > 0 && s0.lock.type != kLock) q.pess = true; if (int only = (int)sym_param("pess", 0)) if (q.pess != (only == 1)) sym_stop();
  if (q.pess) { q.fut = s0.lock.fut; if (sym_flip("other_fut")) q.expect = ts_var("expect_fut"); }
  int mode = (int)sym_param("mode", 0); q.one_pc = mode == 1; if (mode == 2) { q.async = true; q.secondaries = {"x"}; }
  int64_t access = 0; if (mode) { access = ts_var("max_read_ts"); region->SetTxnAccessMaxTs(access); sym_assume(access < kMaxTs); q.max_commit = sym_flip("bounded") ? ts_var("max_commit") : 0; q.min_commit = sym_flip("min") ? ts_var("min_commit") : 0; }
  Mut m{op == 0 ? kPut : op == 1 ? kDelete : kPia, K, op == 1 ? "" : sym_str("new", sym_param("big", 0) && sym_flip("new_big") ? 2 : 1)}; q.muts.push_back(m);
  bool held = mine(s0, t), locked = s0.lock.on, rolled = rollback_of(s0, t); const Rec* done = commit_of(s0, t); bool newer = false, exists = false; for (auto& r : s0.recs) if (r.op != kRollback) { if (sym_fork(r.cts >= t)) newer = true; } for (auto& r : s0.recs) if (r.op != kRollback) { exists = r.op == kPut; break; }
  q.run(); s1 = look(K); int64_t pc = q.p.one_pc_commit_ts();
  invariants(t, mode == 1);
  sym_observe("ok", q.ok); sym_cover(q.ok ? "prewrite accepted" : "prewrite refused");
  if (!q.ok) unchanged("a refused prewrite changes nothing");
  if (q.ok && rolled) sym_fail("a rolled back transaction cannot prewrite again");
  if (q.ok && locked && !held && !done) sym_fail("a key locked by another transaction cannot be prewritten");
  if (q.ok && newer && !done && !q.pess) sym_fail("a prewrite is refused when a version was committed at or after its start");
  if (q.ok && q.pess && held && s0.lock.type == kLock && q.expect) sym_assert(q.expect == s0.lock.fut, "a pessimistic prewrite is accepted only under the lock its value was read with");
  if (q.ok && op == 2 && exists && !done && !(held && s0.lock.type != kLock)) sym_fail("an insert is refused when the key exists");
  if (q.ok && done) unchanged("a repeated prewrite of a committed transaction changes nothing");
  if (q.ok && !done) { const Rec* now = commit_of(s1, t); bool l = mine(s1, t);
    if (mode == 1 && pc > 0) { sym_assert(now && now->cts == pc && now->op == (op == 1 ? kDelete : kPut) && (op == 1 || now->value == m.value), "a one-phase commit that is acknowledged is stored with its value at the acknowledged timestamp"); sym_assert(pc > t && pc > access && (q.min_commit == 0 || pc >= q.min_commit) , "a one-phase commit is ordered after every read served before it"); sym_assert(q.max_commit == 0 || pc <= q.max_commit, "a one-phase commit stays below its upper bound"); if (mine(s1, t)) sym_fail("a one-phase commit leaves no lock"); if (newer && !q.pess) sym_fail("a one-phase commit is refused when a version was committed at or after its start"); sym_cover("one phase commit"); }
    else { if (!l) sym_fail("an accepted prewrite leaves the lock of its transaction"); if (!(held && s0.lock.type != kLock)) { sym_assert(s1.lock.type == (op == 1 ? kDelete : kPut) && (op == 1 || s1.lock.value == m.value), "an accepted prewrite stores its mutation"); if (q.min_commit) sym_assert(s1.lock.min_commit >= q.min_commit, "the lock respects the requested minimum commit timestamp"); }
      if (mode == 2 && !(held && s0.lock.type != kLock) && s1.lock.async) { sym_assert(s1.lock.secondaries == q.secondaries, "the primary lock of an async commit names every secondary"); sym_assert(s1.lock.min_commit > access && s1.lock.min_commit > t && q.p.min_commit_ts() == s1.lock.min_commit, "an async-commit lock promises a commit after every read served before it, and the answer says so"); sym_cover("async lock"); } } }
  if (!q.ok && !locked && !newer && !rolled && !(op == 2 && exists)) sym_fail("a prewrite without any conflict is accepted"); }
static void step_commit(int64_t t, bool via_resolve) {
  int64_t c = ts_var("commit_ts"); sym_assume(c > t);
  for (auto& r : s0.recs) if (r.op != kRollback) { if (sym_fork(r.cts == c)) { if (!sym_fork(r.sts == t)) sym_stop(); } }   // a commit timestamp belongs to one transaction
  bool held = mine(s0, t), rolled = rollback_of(s0, t); const Rec* done = commit_of(s0, t); if (done && !sym_fork(done->cts == c)) sym_stop();   // ... and a transaction has one commit timestamp
  if (held) { if (s0.lock.fut) sym_assume(c > s0.lock.fut); for (auto& r : s0.recs) if (r.op != kRollback) sym_assume(c > r.cts); }
  bool ok; bool expired = false;
  if (via_resolve) { Resolve q; q.ts = t; q.cts = c; if (sym_flip("by_key")) q.keys = {K}; else q.infos = {{t, c}}; if (held && s0.lock.min_commit) sym_assume(c >= s0.lock.min_commit); ok = q.run(); }
  else { Commit q; q.ts = t; q.cts = c; q.keys = {K}; ok = q.run(); expired = q.p.txn_result().has_commit_ts_expired(); if (expired) sym_assert(q.p.txn_result().commit_ts_expired().min_commit_ts() > c, "the reported minimum is above the attempted timestamp"); }
  s1 = look(K); invariants(t, true); sym_observe("ok", ok); sym_cover(ok ? "commit accepted" : "commit refused");
  const Rec* now = commit_of(s1, t);
  if (!via_resolve) { if (ok) sym_assert(now && now->cts == c, "an acknowledged commit is stored at its timestamp"); else unchanged("a refused commit changes nothing"); }
  if (ok && rolled && !via_resolve) sym_fail("the commit of a rolled back transaction is refused");
  if (held && !done) { bool data = s0.lock.type == kPut || s0.lock.type == kDelete;
    if (ok && data) { sym_assert(now && now->cts == c && now->op == s0.lock.type && (now->op != kPut || now->value == s0.lock.value), "the committed version carries the prewritten value"); if (s1.lock.on) sym_fail("a commit releases its lock"); if (s0.lock.min_commit) sym_assert(c >= s0.lock.min_commit, "a commit respects the minimum commit timestamp of its lock"); sym_cover("lock committed"); }
    if (!data && now) sym_fail("a lock without a prewritten value is not committed");
    if (!ok && data && !expired && !via_resolve) sym_fail("the commit of a prewritten key is accepted"); } }
static void step_rollback(int64_t t, bool via_resolve) {
  bool held = mine(s0, t), rolled = rollback_of(s0, t); const Rec* done = commit_of(s0, t); bool ok;
  if (via_resolve) { Resolve q; q.ts = t; q.cts = 0; if (sym_flip("by_key")) q.keys = {K}; else q.infos = {{t, 0}}; ok = q.run(); } else { Rollback q; q.ts = t; q.keys = {K}; ok = q.run(); }
  s1 = look(K); invariants(t, true); sym_observe("ok", ok); sym_cover(ok ? "rollback accepted" : "rollback refused");
  if (!ok) unchanged("a refused rollback changes nothing");
  if (ok && !via_resolve && !done) { const Rec* o = at(s1, t); if (mine(s1, t)) sym_fail("an acknowledged rollback leaves no lock"); sym_assert(o && (o->op != kRollback || o->sts == t), "an acknowledged rollback is recorded: the transaction can never commit on the key"); }
  if (via_resolve && ok && held) { bool pess = s0.lock.type == kLock; if (mine(s1, t)) sym_fail("a resolved lock is gone"); if (!pess) { const Rec* o = at(s1, t); sym_assert(o && (o->op != kRollback || o->sts == t), "a lock resolved as rolled back leaves a rollback record"); } } }
static void step_status(int64_t t) {
  Status q; q.ts = t; q.primary = K; q.caller = ts_var("caller"); q.now = (int64_t)sym_in("now", 0, (uint64_t)1 << 58); q.rollback = sym_flip("rollback_if_missing"); q.force_sync = sym_flip("force_sync");
  bool held = mine(s0, t), rolled = rollback_of(s0, t); const Rec* done = commit_of(s0, t); q.run(); s1 = look(K); invariants(t, true);
  if (!q.ok) { unchanged("a refused status check changes nothing"); return; } bool res = has(q.p.txn_result()); int act = q.p.action(); sym_observe("action", act);
  const Rec* now = commit_of(s1, t); if (!done && now) sym_fail("a status check commits nothing");
  if (done) { sym_assert(q.p.commit_ts() == done->cts && !res, "the status of a committed transaction is its commit timestamp"); unchanged("a status check of a finished transaction changes nothing"); sym_cover("committed"); }
  else { sym_assert(q.p.commit_ts() == 0, "no commit timestamp is reported for a transaction that is not committed");
    bool says_rolled = act == pb::store::Action::TTLExpireRollback || act == pb::store::Action::LockNotExistRollback; const Rec* o = at(s1, t);
    if (says_rolled) { if (mine(s1, t)) sym_fail("a transaction reported as rolled back holds no lock"); sym_assert(o && (o->op != kRollback || o->sts == t), "a transaction reported as rolled back can never commit"); sym_cover("rolled back"); }
    if (rolled && !held) { sym_assert(says_rolled, "a rolled back transaction is reported as such"); unchanged("a status check of a finished transaction changes nothing"); }
    if (held) { bool alive = s0.lock.ttl >= (q.now >> 18); if (says_rolled) sym_assert(!alive, "a transaction whose lock has not expired is not rolled back by a status check"); if (s0.lock.async && !q.force_sync) unchanged("a status check leaves an async-commit lock alone");
      else if (sym_fork(alive)) { if (!mine(s1, t)) sym_fail("a live lock survives a status check"); sym_assert(s1.lock.type == s0.lock.type && s1.lock.value == s0.lock.value && s1.lock.ttl == s0.lock.ttl && s1.lock.min_commit >= s0.lock.min_commit && s1.lock.fut == s0.lock.fut, "a status check of a live lock only raises its minimum commit timestamp"); sym_assert(s1.lock.min_commit >= q.caller, "after a status check the transaction cannot commit before the caller's snapshot"); sym_cover("pushed"); }
      else sym_assert(says_rolled, "an expired transaction is rolled back"); }
    if (!held && !rolled && q.rollback) sym_assert(says_rolled, "a missing transaction is rolled back when asked for"); if (!held && !rolled && !q.rollback) unchanged("a status check that must not roll back changes nothing"); } }
static void step_secondary(int64_t t) {
  Secondary q; q.ts = t; q.keys = {K}; bool held = mine(s0, t), rolled = rollback_of(s0, t); const Rec* done = commit_of(s0, t); q.run(); s1 = look(K); invariants(t, true); sym_observe("ok", q.ok); if (!q.ok) { unchanged("a refused check changes nothing"); return; }
  if (done) { sym_assert(q.p.commit_ts() == done->cts, "a committed secondary reports its commit timestamp"); unchanged("a finished secondary is left alone"); sym_cover("committed"); }
  else { sym_assert(q.p.commit_ts() == 0, "no commit timestamp is reported for a key that is not committed"); if (commit_of(s1, t)) sym_fail("checking secondaries commits nothing");
    if (q.p.txn_result().has_locked()) { sym_assert(held && s0.lock.type == kLock, "only a pessimistic lock is reported as not prewritten"); unchanged("a locked secondary is left alone"); }
    else if (q.p.locks_size() > 0) { sym_assert(held && s0.lock.type != kLock && q.p.locks(0).lock_ts() == t, "a reported secondary lock exists and is a prewrite"); unchanged("a locked secondary is left alone"); sym_cover("locked"); }
    else { const Rec* o = at(s1, t); if (mine(s1, t)) sym_fail("a secondary reported as missing holds no lock"); sym_assert(o && (o->op != kRollback || o->sts == t), "a secondary reported as missing can never be committed afterwards"); sym_cover("missing"); } } }
static void step_beat(int64_t t) { Beat q; q.ts = t; q.primary = K; q.ttl = (int64_t)sym_in("advise", 1, (uint64_t)1 << 40); bool held = mine(s0, t); q.run(); s1 = look(K); invariants(t, false); sym_observe("ok", q.ok);
  if (!q.ok) unchanged("a refused heartbeat changes nothing"); if (q.ok && !held) sym_fail("a heartbeat for a lock that is gone is refused");
  if (q.ok) { sym_assert(s1.lock.ttl >= s0.lock.ttl && (s1.lock.ttl == s0.lock.ttl || s1.lock.ttl == q.ttl) && s1.lock.ttl >= q.ttl, "a heartbeat only extends the lifetime"); sym_assert(s1.lock.type == s0.lock.type && s1.lock.value == s0.lock.value && s1.lock.min_commit == s0.lock.min_commit && s1.lock.fut == s0.lock.fut && s1.lock.async == s0.lock.async, "a heartbeat changes nothing but the lifetime"); sym_cover("beat"); } }
static void step_plock(int64_t t) { PLock q; q.ts = t; q.primary = K; q.ttl = 77; q.fut = ts_var("for_update"); sym_assume(q.fut >= t); q.values = sym_flip("values"); q.muts.push_back({kLock, K, ""}); bool held = mine(s0, t), locked = s0.lock.on, rolled = rollback_of(s0, t); const Rec* done = commit_of(s0, t);
  if (done) sym_assume(done->cts > q.fut);   // the commit timestamp is allocated after every lock request was sent
  bool newer = false, tie = false; for (auto& r : s0.recs) if (r.op != kRollback) { if (sym_fork(r.cts > q.fut)) newer = true; else if (sym_fork(r.cts == q.fut)) tie = true; } q.run(); s1 = look(K); invariants(t, false); sym_observe("ok", q.ok); sym_cover(q.ok ? "lock granted" : "lock refused");
  if (!q.ok) unchanged("a refused lock request changes nothing");
  if (q.ok) { if (!mine(s1, t)) sym_fail("a granted pessimistic lock is stored"); if (locked && !held) sym_fail("a pessimistic lock is exclusive"); if (newer) sym_fail("a pessimistic lock is refused when a version was committed after its for-update timestamp"); if (held && s0.lock.type != kLock) unchanged("a prewritten lock is not turned back"); else { sym_assert(s1.lock.type == kLock, "a granted lock is a pessimistic lock"); sym_assert(s1.lock.fut >= q.fut && s1.lock.fut >= s0.lock.fut, "the for-update timestamp of a lock never goes back"); }
    if (q.values && q.p.kvs_size() > 0) { const Rec* v = nullptr; for (auto& r : s0.recs) if (r.op != kRollback) { v = &r; break; } bool put = v && v->op == kPut; sym_assert(put ? q.p.kvs(0).value() == v->value : q.p.kvs(0).value().empty(), "the value returned with a lock is the newest committed one"); } }
  if (!q.ok && !locked && !newer && !tie && !rolled && !done) sym_fail("a lock request without any conflict is granted"); }
static void step_prollback(int64_t t) { PRollback q; q.ts = t; q.fut = ts_var("for_update"); q.keys = {K}; bool held = mine(s0, t); q.run(); s1 = look(K); invariants(t, true); sym_observe("ok", q.ok); sym_assert(s1.recs.size() == s0.recs.size(), "a pessimistic rollback decides nothing");
  if (s0.lock.on && s0.lock.type != kLock) unchanged("a pessimistic rollback leaves a prewritten lock alone"); if (!held) unchanged("a pessimistic rollback leaves the locks of others alone"); if (held && s0.lock.type == kLock && sym_fork(s0.lock.fut <= q.fut)) { if (s1.lock.on) sym_fail("a pessimistic rollback releases the lock"); sym_cover("released"); } else unchanged("a pessimistic rollback does not release a lock taken at a later timestamp"); }
extern "C" void harness_main() {
  FLAGS_max_short_value_in_write_cf = 1;
  node::make(); region = node::add_region(*node::cur, 1, "a", "z");
  s0 = any_key(K, K, (int)sym_param("recs", 2), (int)sym_param("locks", 6), sym_param("big", 0) != 0, sym_param("pess", 0) == 1 ? &kPessKinds : nullptr);
  int64_t t = ts_var("start_ts");
  switch (sym_param("op", 0)) {
    case 0: step_prewrite(t); break; case 1: step_commit(t, false); break; case 2: step_rollback(t, false); break; case 3: step_status(t); break; case 4: step_commit(t, true); break; case 5: step_rollback(t, true); break;
    case 6: step_secondary(t); break; case 7: step_beat(t); break; case 8: step_plock(t); break; case 9: step_prollback(t); break; }
}
