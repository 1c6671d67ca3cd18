// C02: snapshot reads through the MVCC readers.
#include "mvcc/reader.h"
#include "mvcc/iterator.h"
#include "mvcc/codec.h"
#include "mem_engine.h"
#include "symsched.h"
using namespace dingodb; using mvcc::Codec; using mvcc::ValueFlag;
extern "C" int64_t shim_clock_us, shim_clock_step_us;
struct Ver { std::string key; int64_t ts; int flag; int64_t ttl; std::string val; };
// versions[k] newest first
static std::vector<std::string> keys; static std::vector<std::vector<Ver>> vers; static int64_t now_ms;
static void build(mem::Engine& e, int maxver, int flags) {
  int id = 0;
  for (auto& k : keys) { std::vector<Ver> vs; int n = (int)sym_choice("versions", maxver + 1);
    for (int i = 0; i < n; ++i) { Ver v; v.key = k; v.ts = (int64_t)sym_var_range("ts", 64, 1, INT64_MAX); if (i) sym_assume(v.ts < vs.back().ts); v.flag = (int)sym_choice("flag", flags); v.ttl = v.flag == 1 ? (int64_t)sym_var_range("ttl", 64, 0, INT64_MAX) : 0; v.val = std::string(1, (char)('A' + id++)); vs.push_back(v);
      pb::common::KeyValue kv; kv.set_key(k); kv.set_value(v.val); std::vector<pb::common::KeyValue> kvs{kv};
      pb::common::KeyValue o = v.flag == 0 ? Codec::EncodeKeyValueWithPut(v.ts, kv) : v.flag == 1 ? Codec::EncodeKeyValueWithPutTTL(v.ts, v.ttl, kv) : Codec::EncodeKeyValueWithDelete(v.ts, kv);
      if (i & 1) { if (v.flag == 0) Codec::EncodeKeyValuesWithPut(v.ts, kvs); else if (v.flag == 1) Codec::EncodeKeyValuesWithTTL(v.ts, v.ttl, kvs); else Codec::EncodeKeyValuesWithDelete(v.ts, kvs); o = kvs[0]; }   // both families of encoders are used by the write path
      e.tabs.mut("cf").push_back({o.key(), o.value()}); }
    vers.push_back(vs); }
}
// the value a reader at ts must see; empty = nothing
static const Ver* visible(const std::vector<Ver>& vs, int64_t ts) { int64_t lim = ts > 0 ? ts : INT64_MAX;
  for (auto& v : vs) { if (v.ts > lim) continue; if (v.flag == 2) return nullptr; if (v.flag == 1 && v.ttl < now_ms) return nullptr; return &v; } return nullptr; }
static mvcc::ReaderPtr reader(mem::Engine& e, int kind) { auto r = e.Reader(); if (kind == 0) return std::make_shared<mvcc::KvReader>(r); if (kind == 1) return std::make_shared<mvcc::VectorReader>(r); return std::make_shared<mvcc::DocumentReader>(r); }
static void get(int kind) {
  mem::Engine e; size_t L = sym_param("len", 1);
  std::string a = sym_str_upto("a", 1, L), b = sym_str_upto("b", 1, L), q = sym_str_upto("q", 1, L); sym_assume(a < b); if (sym_param("long", 0)) { std::string p(7, 'k'); a = p + a; b = p + b; q = p + q; } keys = {a, b};
  build(e, (int)sym_param("ver", 1), 3);
  int64_t ts = sym_i64("read_ts"); std::string v; auto st = reader(e, kind)->KvGet("cf", ts, q, v);
  const Ver* w = q == a ? visible(vers[0], ts) : q == b ? visible(vers[1], ts) : nullptr;
  if (w) { sym_cover("found"); sym_assert(st.ok(), "a visible value is found"); sym_assert(v == w->val, "the newest visible value is returned"); } else { sym_cover("absent"); sym_assert(st.error_code() == pb::error::EKEY_NOT_FOUND, "nothing is returned when nothing is visible"); }
  sym_observe("ok", st.ok());
}
static void scan(int kind) {
  mem::Engine e; keys = {"k", std::string("k\xff", 2), "m"}; if (sym_param("long", 0)) keys = {"kkkkkkkk", "kkkkkkkka", "m"}; /* several groups of the encoding */ keys.resize(sym_param("nk", 3)); build(e, (int)sym_param("ver", 2), 3);
  int64_t ts = sym_i64("read_ts"); auto r = reader(e, kind);
  static const char* B[] = {"a", "k", "l", "m", "z"}; std::string s = B[sym_choice("start", 4)], en = B[1 + sym_choice("end", 4)];
  if (s >= en) sym_stop();
  std::vector<std::pair<std::string, const Ver*>> exp; for (size_t i = 0; i < keys.size(); ++i) if (keys[i] >= s && keys[i] < en) if (auto* w = visible(vers[i], ts)) exp.push_back({keys[i], w});
  int what = (int)sym_choice("op", 6); bool many = exp.size() > 1; if (many) sym_cover("several results");
  if (what == 0) { std::vector<pb::common::KeyValue> kvs; sym_assert(r->KvScan("cf", ts, s, en, kvs).ok(), "scan succeeds"); sym_assert(kvs.size() == exp.size(), "scan returns exactly the visible keys"); for (size_t i = 0; i < exp.size(); ++i) { sym_assert(kvs[i].key() == exp[i].first && kvs[i].value() == exp[i].second->val, "scan returns the newest visible values in key order"); sym_assert(kvs[i].ts() == exp[i].second->ts, "scan reports the version"); } }
  else if (what == 1) { std::vector<std::pair<std::string, std::string>> got; size_t lim = sym_choice("limit", 2) ? 1 : 99; sym_assert(r->KvScan("cf", ts, s, en, [&](const std::string& k, const std::string& v) { got.push_back({k, v}); return got.size() < lim; }).ok(), "scan succeeds"); size_t n = exp.size() < lim ? exp.size() : lim; sym_assert(got.size() == n, "callback scan visits exactly the visible keys until told to stop"); for (size_t i = 0; i < n; ++i) sym_assert(got[i].first == exp[i].first && got[i].second == exp[i].second->val, "callback scan: newest visible values in order"); }
  else if (what == 2) { int64_t n = -1; sym_assert(r->KvCount("cf", ts, s, en, n).ok() && n == (int64_t)exp.size(), "count counts exactly the visible keys"); }
  else if (what == 3) { std::string k; sym_assert(r->KvMinKey("cf", ts, s, en, k).ok() && k == (exp.empty() ? std::string() : exp.front().first), "min key is the smallest visible key"); }
  else if (what == 4) { std::string k; sym_assert(r->KvMaxKey("cf", ts, s, en, k).ok() && k == (exp.empty() ? std::string() : exp.back().first), "max key is the largest visible key"); }
  else { dingodb::IteratorOptions o; o.lower_bound = Codec::EncodeBytes(s); auto it = r->NewIterator("cf", ts, o); size_t i = exp.size(); for (it->SeekForPrev(Codec::EncodeBytes(en)); it->Valid(); it->Prev()) { sym_assert(i > 0, "reverse iteration shows only visible keys"); --i; std::string k; Codec::DecodeKey(it->Key(), k); sym_assert(k == exp[i].first && Codec::UnPackageValue(it->Value()) == exp[i].second->val, "reverse iteration: newest visible values in reverse order"); } sym_assert(i == 0, "reverse iteration shows all visible keys"); }
  sym_observe("n", exp.size());
}
extern "C" void harness_main() {
  now_ms = 1700000000000; shim_clock_us = now_ms * 1000; shim_clock_step_us = 0;
  int kind = (int)sym_param("kind", 0); if (sym_param("part", 0) == 0) get(kind); else scan(kind);
}
