// C01: the versioned-key codec preserves order and identity.
#include "mvcc/codec.h"
#include "sym.h"
using dingodb::mvcc::Codec; using dingodb::mvcc::ValueFlag;
static int cmp3(const std::string& a, const std::string& b) { int r = a.compare(b); return r < 0 ? -1 : r > 0 ? 1 : 0; }
static void roundtrip(size_t maxlen) {
  std::string a = sym_str_upto("a", 0, maxlen), b = sym_str_upto("b", 0, maxlen);
  int64_t ta = (int64_t)sym_var_range("ta", 64, 0, INT64_MAX), tb = (int64_t)sym_var_range("tb", 64, 0, INT64_MAX);
  std::string ea = Codec::EncodeKey(a, ta), eb = Codec::EncodeKey(std::string_view(b), tb);
  std::string d; int64_t t = 0;
  sym_assert(Codec::DecodeKey(ea, d, t), "encoded key decodes");
  sym_assert(d == a, "decoded key equals the key"); sym_assert(t == ta, "decoded ts equals the ts");
  sym_assert(Codec::TruncateTsForKey(ea) == Codec::EncodeBytes(a), "key part of the encoded key"); sym_assert(Codec::TruncateKeyForTs(ea) == ta, "ts part of the encoded key");
  std::string d2; sym_assert(Codec::DecodeKey(std::string_view(eb), d2) && d2 == b, "decoded key equals the key (2)");
  std::string d3; sym_assert(Codec::DecodeBytes(Codec::EncodeBytes(b), d3) && d3 == b, "bytes round trip");
  int kc = cmp3(a, b), ec = cmp3(ea, eb);
  if (kc == 0) { sym_cover("equal keys"); sym_assert(ec == (ta > tb ? -1 : ta < tb ? 1 : 0), "versions of one key sort newest first"); }
  else { sym_cover(a.size() < b.size() && b.compare(0, a.size(), a) == 0 ? "prefix keys" : "different keys"); sym_assert(ec == kc, "encoded keys sort like the plain keys whatever the timestamps"); }
  sym_observe("ec", (uint64_t)(ec + 1)); sym_observe("size", ea.size());
}
static void values(size_t maxlen) {
  std::string v = sym_str_upto("v", 0, maxlen); int64_t ttl = sym_i64("ttl"); int f = (int)sym_choice("flag", 3); ValueFlag fl = (ValueFlag)f;
  std::string p; 
  if (sym_flip("inplace")) { p = v; Codec::PackageValue(fl, ttl, p); } else Codec::PackageValue(fl, ttl, v, p);
  std::string exp = fl == ValueFlag::kDelete ? std::string() : v;
  sym_assert(Codec::GetValueFlag(p) == fl, "flag survives"); sym_assert(Codec::GetValueFlag(std::string_view(p)) == fl, "flag survives (view)");
  sym_assert(Codec::UnPackageValue(p) == exp, "value survives");
  ValueFlag of; int64_t ot = -1; sym_assert(Codec::UnPackageValue(std::string_view(p), of, ot) == exp, "value survives (view)");
  sym_assert(of == fl, "flag survives (3)"); sym_assert(ot == (fl == ValueFlag::kPutTTL ? ttl : 0), "ttl survives");
  if (fl == ValueFlag::kPutTTL) {
    sym_assert(Codec::GetValueTTL(std::string_view(p)) == ttl, "ttl survives (view)");
    sym_assert(Codec::GetValueTTL(p) == ttl, "ttl survives (string)");
  }
  std::string q = p; Codec::UnPackageValueInPlace(q); sym_assert(q == exp, "value survives in place");
  sym_observe("n", p.size());
}
static void ranges(size_t maxlen) {
  std::string s = sym_str_upto("s", 1, maxlen), e = sym_str_upto("e", 1, maxlen), k = sym_str_upto("k", 1, maxlen);
  int64_t ts = (int64_t)sym_var_range("ts", 64, 0, INT64_MAX);
  auto r = Codec::EncodeRange(s, e); std::string ek = Codec::EncodeKey(k, ts);
  bool in = s <= k && k < e, ein = r.start_key() <= ek && ek < r.end_key();
  sym_assert(in == ein, "encoded range contains the same keys");
  auto pr = Codec::DecodeRange(r); sym_assert(pr.start_key() == s && pr.end_key() == e, "range round trip");
  sym_observe("in", in);
}
extern "C" void harness_main() {
  size_t n = sym_param("maxlen", 9);
  switch (sym_param("part", 0)) { case 0: roundtrip(n); break; case 1: values(n); break; case 2: ranges(n); break; }
}
