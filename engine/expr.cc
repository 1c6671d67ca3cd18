#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/mman.h>

std::vector<VarInfo> g_vars;
uint64_t g_nodes = 0;
static std::vector<Node*> g_varNodes;
static uint64_t g_epoch = 1;
uint64_t newEpoch() { return ++g_epoch; }

static char* g_arena = nullptr; static size_t g_arenaLeft = 0;
static void* arenaAlloc(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if (n > g_arenaLeft) {
    size_t sz = std::max<size_t>(n, 4 << 20);
    g_arena = (char*)malloc(sz); g_arenaLeft = sz;
    if (!g_arena) { fprintf(stderr, "out of memory\n"); _exit(3); }
  }
  void* p = g_arena; g_arena += n; g_arenaLeft -= n; return p;
}
Agg* Agg::make(uint32_t n) {
  Agg* a = (Agg*)arenaAlloc(sizeof(Agg) + sizeof(Val) * n);
  a->k = K_AGG; a->n = n;
  for (uint32_t i = 0; i < n; i++) a->v[i] = Val();
  return a;
}

// ---------------------------------------------------------------- hash consing
static Node** g_tab = nullptr; static size_t g_tabSize = 0, g_tabCount = 0;
static inline uint64_t hashNode(Kind k, unsigned w, uint32_t aux, Node* a, Node* b, Node* c, u128 v) {
  uint64_t h = k * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full + aux * 0x165667B19E3779F9ull;
  h ^= (a ? a->id + 1 : 0) * 0xD6E8FEB86659FD93ull; h = (h << 23) | (h >> 41);
  h ^= (b ? b->id + 1 : 0) * 0xA0761D6478BD642Full; h = (h << 19) | (h >> 45);
  h ^= (c ? c->id + 1 : 0) * 0xE7037ED1A0B428DBull; h = (h << 29) | (h >> 35);
  h ^= (uint64_t)v * 0x8EBC6AF09C88C6E3ull; h ^= (uint64_t)(v >> 64) * 0x589965CC75374CC3ull;
  h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 29;
  return h;
}
static void growTab() {
  size_t ns = g_tabSize ? g_tabSize * 2 : (1 << 16);
  Node** nt = (Node**)calloc(ns, sizeof(Node*));
  for (size_t i = 0; i < g_tabSize; i++) if (Node* n = g_tab[i]) {
    size_t h = hashNode(n->k, n->w, n->aux, n->a, n->b, n->c, n->val) & (ns - 1);
    while (nt[h]) h = (h + 1) & (ns - 1);
    nt[h] = n;
  }
  free(g_tab); g_tab = nt; g_tabSize = ns;
}
static Node* intern(Kind k, unsigned w, uint32_t aux, Node* a, Node* b, Node* c, u128 v) {
  if ((g_tabCount + 1) * 10 >= g_tabSize * 6) growTab();
  size_t h = hashNode(k, w, aux, a, b, c, v) & (g_tabSize - 1);
  while (Node* n = g_tab[h]) {
    if (n->k == k && n->w == w && n->aux == aux && n->a == a && n->b == b && n->c == c && n->val == v) return n;
    h = (h + 1) & (g_tabSize - 1);
  }
  Node* n = (Node*)arenaAlloc(sizeof(Node));
  memset((void*)n, 0, sizeof(Node));
  n->k = k; n->w = w; n->aux = aux; n->a = a; n->b = b; n->c = c; n->val = v; n->id = ++g_nodes;
  g_tab[h] = n; g_tabCount++;
  return n;
}

Node* mkConst(u128 v, unsigned w) { return intern(K_CONST, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
Node* mkVar(const std::string& name, unsigned w) {
  uint32_t idx = g_vars.size();
  g_vars.push_back({name, w});
  Node* n = intern(K_VAR, w, idx, nullptr, nullptr, nullptr, 0);
  g_varNodes.push_back(n);
  return n;
}
Node* varNode(uint32_t i) { return g_varNodes[i]; }

// ---------------------------------------------------------------- concrete semantics
u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w); a &= m; b &= m;
  switch (k) {
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? a / b : m;
    case K_UREM: return b ? a % b : a;
    case K_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
    case K_SREM: { i128 x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case K_ASHR: { i128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
    case K_SLT: return sx(a, w) < sx(b, w); case K_SLE: return sx(a, w) <= sx(b, w);
    default: abort();
  }
}
static float asF(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(u128 v) { uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
static u128 fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 fromD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
u128 foldFp(Kind k, unsigned w, unsigned aw, u128 a, u128 b, u128 c) {
  if (k == K_SITOFP) { i128 v = sx(a, aw); return w == 32 ? fromF((float)v) : fromD((double)v); }
  if (k == K_UITOFP) { u128 v = a & maskw(aw); return w == 32 ? fromF((float)v) : fromD((double)v); }
  if (k == K_FPTOSI) { double d = aw == 32 ? asF(a) : asD(a); if (!(d > -9.3e18 && d < 9.3e18)) return (u128)1 << (w - 1); return (u128)(i128)d & maskw(w); }
  if (k == K_FPTOUI) { double d = aw == 32 ? asF(a) : asD(a); if (!(d > -1 && d < 1.9e19)) return maskw(w); return (u128)d & maskw(w); }
  if (k == K_FPCVT) { if (w == aw) return a; return w == 32 ? fromF((float)asD(a)) : fromD((double)asF(a)); }
#define FP(OP) (aw == 32 ? fromF(OP(asF(a), asF(b))) : fromD(OP(asD(a), asD(b))))
#define CMP(OP) (aw == 32 ? (u128)(asF(a) OP asF(b)) : (u128)(asD(a) OP asD(b)))
  switch (k) {
    case K_FADD: return aw == 32 ? fromF(asF(a) + asF(b)) : fromD(asD(a) + asD(b));
    case K_FSUB: return aw == 32 ? fromF(asF(a) - asF(b)) : fromD(asD(a) - asD(b));
    case K_FMUL: return aw == 32 ? fromF(asF(a) * asF(b)) : fromD(asD(a) * asD(b));
    case K_FDIV: return aw == 32 ? fromF(asF(a) / asF(b)) : fromD(asD(a) / asD(b));
    case K_FFMA: return aw == 32 ? fromF(fmaf(asF(a), asF(b), asF(c))) : fromD(fma(asD(a), asD(b), asD(c)));
    case K_FSQRT: return aw == 32 ? fromF(sqrtf(asF(a))) : fromD(sqrt(asD(a)));
    case K_FNEG: return a ^ ((u128)1 << (aw - 1));
    case K_FABS: return a & (maskw(aw) >> 1);
    case K_FOEQ: return CMP(==); case K_FOLT: return CMP(<); case K_FOLE: return CMP(<=);
    case K_FUNO: return aw == 32 ? (u128)(std::isnan(asF(a)) || std::isnan(asF(b))) : (u128)(std::isnan(asD(a)) || std::isnan(asD(b)));
    default: abort();
  }
}

// ---------------------------------------------------------------- signed intervals
static void interval(Node* n) {
  if (n->ivset) return;
  n->ivset = true;
  unsigned w = n->w;
  i128 full_lo = w <= 64 ? -((i128)1 << (w - 1)) : 0, full_hi = w <= 64 ? ((i128)1 << (w - 1)) - 1 : 0;
  n->lo = full_lo; n->hi = full_hi;
  if (w > 64) return;
  auto set = [&](i128 lo, i128 hi) { if (lo >= full_lo && hi <= full_hi) { n->lo = lo; n->hi = hi; } };
  switch (n->k) {
    case K_CONST: n->lo = n->hi = sx(n->val, w); break;
    case K_ADD: interval(n->a); interval(n->b); set(n->a->lo + n->b->lo, n->a->hi + n->b->hi); break;
    case K_SUB: interval(n->a); interval(n->b); set(n->a->lo - n->b->hi, n->a->hi - n->b->lo); break;
    case K_MUL: {
      interval(n->a); interval(n->b);
      // 64-bit bounds multiply within i128
      i128 p[4] = {n->a->lo * n->b->lo, n->a->lo * n->b->hi, n->a->hi * n->b->lo, n->a->hi * n->b->hi};
      set(*std::min_element(p, p + 4), *std::max_element(p, p + 4));
      if (n->a == n->b && n->lo < 0 && n->hi == *std::max_element(p, p + 4)) n->lo = 0;
      break;
    }
    case K_ITE: interval(n->b); interval(n->c); n->lo = std::min(n->b->lo, n->c->lo); n->hi = std::max(n->b->hi, n->c->hi); break;
    case K_ZEXT: {
      if (n->a->w < 64) { interval(n->a); if (n->a->lo >= 0) { n->lo = n->a->lo; n->hi = n->a->hi; } else { n->lo = 0; n->hi = (i128)maskw(n->a->w); } }
      break;
    }
    case K_SEXT: interval(n->a); n->lo = n->a->lo; n->hi = n->a->hi; break;
    case K_AND:
      for (Node* x : {n->a, n->b}) { interval(x); if (x->lo >= 0) { if (n->lo < 0) n->lo = 0; n->hi = std::min(n->hi, x->hi); } }
      break;
    case K_UREM: if (isConst(n->b)) { i128 b = sx(n->b->val, w); if (b > 0) { n->lo = 0; n->hi = b - 1; } } break;
    default: break;
  }
}

unsigned trailingZeros(Node* n) {
  switch (n->k) {
    case K_CONST: { unsigned i = 0; while (i < n->w && !((n->val >> i) & 1)) i++; return i; }
    case K_CONCAT: { unsigned t = trailingZeros(n->b); return t < n->b->w ? t : n->b->w + trailingZeros(n->a); }
    case K_ADD: case K_OR: case K_XOR: return std::min(trailingZeros(n->a), trailingZeros(n->b));
    case K_ZEXT: case K_SEXT: return trailingZeros(n->a);
    case K_MUL: return std::min<unsigned>(n->w, trailingZeros(n->a) + trailingZeros(n->b));
    case K_ITE: return std::min(trailingZeros(n->b), trailingZeros(n->c));
    default: return 0;
  }
}

// ---------------------------------------------------------------- constructors
Node* mkNot(Node* a) {
  if (isConst(a)) return mkConst(~a->val, a->w);
  if (a->k == K_NOT) return a->a;
  if (a->w == 1) {
    if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a);
    if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
    if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
    if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
  }
  if (a->k == K_ITE && (isConst(a->b) || isConst(a->c))) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
  return intern(K_NOT, a->w, 0, a, nullptr, nullptr, 0);
}

Node* mkExtract(Node* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
    case K_CONST: return mkConst(a->val >> lo, w);
    case K_EXTRACT: return mkExtract(a->a, a->aux + lo, w);
    case K_CONCAT: {
      unsigned lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case K_ZEXT:
      if (lo >= a->a->w) return mkConst(0, w);
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case K_SEXT:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
      return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case K_ITE:
      if (isConst(a->b) || isConst(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      break;
    case K_NOT: return mkNot(mkExtract(a->a, lo, w));
    case K_AND: case K_OR: case K_XOR:
      if (isConst(a->b)) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
      break;
    case K_ADD: case K_SUB: case K_MUL:
      if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return intern(K_EXTRACT, w, lo, a, nullptr, nullptr, 0);
}

static bool adjacent(Node* hi, Node* lo, Node*& out) {
  // hi:lo are contiguous slices of one expression
  Node *hb = hi, *lb = lo; unsigned ho = 0, lo_ = 0; bool neg = false;
  if (hi->k == K_NOT && lo->k == K_NOT) { hb = hi->a; lb = lo->a; neg = true; hi = hb; lo = lb; }
  if (hb->k == K_EXTRACT) { ho = hb->aux; hb = hb->a; }
  if (lb->k == K_EXTRACT) { lo_ = lb->aux; lb = lb->a; }
  if (hb != lb) return false;
  if (ho != lo_ + lo->w) return false;
  out = mkExtract(hb, lo_, hi->w + lo->w);
  if (neg) out = mkNot(out);
  return true;
}

Node* mkConcat(Node* hi, Node* lo) {
  if (isConst(hi) && isConst(lo) && hi->w + lo->w <= 128) return mkConst((hi->val << lo->w) | lo->val, hi->w + lo->w);
  if (isConst(hi) && hi->val == 0) return mkZExt(lo, hi->w + lo->w);
  if (hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  Node* out;
  if (adjacent(hi, lo, out)) return out;
  if (lo->k == K_CONCAT) {
    if (adjacent(hi, lo->a, out)) return mkConcat(out, lo->b);
    if (isConst(hi) && isConst(lo->a) && hi->w + lo->a->w <= 128) return mkConcat(mkConcat(hi, lo->a), lo->b);
  }
  if (lo->k == K_ZEXT && hi->k != K_ZEXT) {
    // hi:0:x
    Node* z = mkConst(0, lo->w - lo->a->w);
    return intern(K_CONCAT, hi->w + lo->w, 0, hi, intern(K_CONCAT, lo->w, 0, z, lo->a, nullptr, 0), nullptr, 0);
  }
  if (hi->k == K_ZEXT) {
    return mkZExt(mkConcat(hi->a, lo), hi->w + lo->w);
  }
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return intern(K_CONCAT, hi->w + lo->w, 0, hi, lo, nullptr, 0);
}

Node* mkZExt(Node* a, unsigned w) {
  if (w == a->w) return a;
  if (isConst(a)) return mkConst(a->val, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_CONCAT && isConst(a->a) && a->a->val == 0) return mkZExt(a->b, w);
  if (a->k == K_ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return intern(K_ZEXT, w, 0, a, nullptr, nullptr, 0);
}
Node* mkSExt(Node* a, unsigned w) {
  if (w == a->w) return a;
  if (isConst(a)) return mkConst((u128)sx(a->val, a->w), w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_CONCAT && isConst(a->a) && a->a->val == 0) return mkZExt(a->b, w);
  if (a->k == K_ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(K_SEXT, w, 0, a, nullptr, nullptr, 0);
}

Node* mkIte(Node* c, Node* a, Node* b) {
  if (isConst(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->k == K_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
  }
  if (a->k == K_ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->k == K_ITE && b->a == c) return mkIte(c, a, b->c);
  if (b->k == K_ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  if (c->k == K_ULE || c->k == K_SLE) {
    // canonical: strict compare
    return mkIte(mkBin(c->k == K_ULE ? K_ULT : K_SLT, c->b, c->a), b, a);
  }
  return intern(K_ITE, a->w, 0, c, a, b, 0);
}

// ---- segment view for bitwise operations
struct Seg { Node* n; };
static void segments(Node* n, std::vector<Node*>& out) {  // low to high
  if (n->k == K_CONCAT) { segments(n->b, out); segments(n->a, out); return; }
  if (n->k == K_ZEXT) { segments(n->a, out); out.push_back(mkConst(0, n->w - n->a->w)); return; }
  out.push_back(n);
}
static bool segmented(Node* n) { return n->k == K_CONCAT || n->k == K_ZEXT; }

static Node* bitwisePiece(Kind k, Node* a, Node* b) {
  if (isConst(a) && isConst(b)) return mkConst(foldBin(k, a->val, b->val, a->w), a->w);
  if (isConst(a)) std::swap(a, b);
  if (isConst(b)) {
    if (b->val == 0) return k == K_AND ? b : a;
    if (b->val == maskw(b->w)) return k == K_AND ? a : k == K_OR ? b : mkNot(a);
    return nullptr;
  }
  if (a == b) return k == K_XOR ? mkConst(0, a->w) : a;
  return nullptr;
}

static Node* trySegments(Kind k, Node* a, Node* b) {
  if (a->w > 512) return nullptr;
  if (!segmented(a) && !segmented(b) && !isConst(b)) return nullptr;
  // cut points
  std::vector<Node*> sa, sb;
  auto split = [](Node* n, std::vector<Node*>& out) {
    if (isConst(n) && n->w > 1) {
      // runs of equal bits
      unsigned i = 0;
      while (i < n->w) {
        unsigned j = i + 1; bool bit = (n->val >> i) & 1;
        while (j < n->w && (bool)((n->val >> j) & 1) == bit) j++;
        out.push_back(mkConst(n->val >> i, j - i)); i = j;
      }
    } else segments(n, out);
  };
  split(a, sa); split(b, sb);
  if (sa.size() + sb.size() > 40) return nullptr;
  std::vector<unsigned> cuts; unsigned p = 0;
  for (Node* n : sa) { p += n->w; cuts.push_back(p); } p = 0;
  for (Node* n : sb) { p += n->w; cuts.push_back(p); }
  std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  std::vector<Node*> pieces; unsigned lo = 0;
  for (unsigned c : cuts) {
    Node* r = bitwisePiece(k, mkExtract(a, lo, c - lo), mkExtract(b, lo, c - lo));
    if (!r) return nullptr;
    pieces.push_back(r); lo = c;
  }
  Node* r = pieces[0];
  for (size_t i = 1; i < pieces.size(); i++) r = mkConcat(pieces[i], r);
  return r;
}

static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }

static Node* mkEqS(Node* a, Node* b) {
  if (a == b) return mkConst(1, 1);
  if (isConst(a)) std::swap(a, b);
  unsigned w = a->w;
  if (w == 1) {
    if (isConst(b)) return b->val ? a : mkNot(a);
    return mkNot(mkBin(K_XOR, a, b));
  }
  if (a->k == K_NOT && b->k == K_NOT) return mkEqS(a->a, b->a);
  if (isConst(b)) {
    switch (a->k) {
      case K_ADD: if (isConst(a->b)) return mkEqS(a->a, mkConst(b->val - a->b->val, w)); break;
      case K_SUB: if (isConst(a->a)) return mkEqS(a->b, mkConst(a->a->val - b->val, w)); 
                  if (b->val == 0) return mkEqS(a->a, a->b); break;
      case K_XOR: if (isConst(a->b)) return mkEqS(a->a, mkConst(b->val ^ a->b->val, w));
                  if (b->val == 0) return mkEqS(a->a, a->b); break;
      case K_NOT: return mkEqS(a->a, mkConst(~b->val, w));
      case K_ZEXT: if (b->val >> a->a->w) return mkConst(0, 1); return mkEqS(a->a, mkConst(b->val, a->a->w));
      case K_SEXT: { u128 lowv = b->val & maskw(a->a->w); if (((u128)sx(lowv, a->a->w) & maskw(w)) != b->val) return mkConst(0, 1); return mkEqS(a->a, mkConst(lowv, a->a->w)); }
      case K_CONCAT: return mkAnd(mkEqS(a->a, mkConst(b->val >> a->b->w, a->a->w)), mkEqS(a->b, mkConst(b->val, a->b->w)));
      case K_ITE: if (isConst(a->b) || isConst(a->c)) return mkIte(a->a, mkEqS(a->b, b), mkEqS(a->c, b)); break;
      case K_OR: if (b->val == 0) return mkAnd(mkEqS(a->a, b), mkEqS(a->b, b)); break;
      default: break;
    }
    if (w <= 64) { interval(a); i128 v = sx(b->val, w); if (v < a->lo || v > a->hi) return mkConst(0, 1); }
  } else {
    if (a->k == K_CONCAT && b->k == K_CONCAT && a->a->w == b->a->w) return mkAnd(mkEqS(a->a, b->a), mkEqS(a->b, b->b));
    if (a->k == K_ZEXT && b->k == K_ZEXT) {
      unsigned m = std::max(a->a->w, b->a->w);
      return mkEqS(mkZExt(a->a, m), mkZExt(b->a, m));
    }
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkEqS(a->a, b->a);
    if (a->k == K_ADD && b->k == K_ADD && isConst(a->b) && a->b == b->b) return mkEqS(a->a, b->a);
    if (a->k == K_ADD && (a->a == b)) return mkEqS(a->b, mkConst(0, w));
    if (a->k == K_ADD && (a->b == b)) return mkEqS(a->a, mkConst(0, w));
    if (w <= 64) { interval(a); interval(b); if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1); }
  }
  if (!isConst(b) && a->id > b->id) std::swap(a, b);
  return intern(K_EQ, 1, 0, a, b, nullptr, 0);
}

static Node* mkCmpS(Kind k, Node* a, Node* b) {
  unsigned w = a->w;
  if (isConst(a) && isConst(b) && w <= 128) return mkConst(foldBin(k, a->val, b->val, w), 1);
  if (a == b) return mkConst(k == K_ULE || k == K_SLE, 1);
  bool strict = k == K_ULT || k == K_SLT, sgn = k == K_SLT || k == K_SLE;
  if (a->k == K_ZEXT && b->k == K_ZEXT) {
    unsigned m = std::max(a->a->w, b->a->w);
    return mkCmpS(strict ? K_ULT : K_ULE, mkZExt(a->a, m), mkZExt(b->a, m));
  }
  if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkCmpS(k, a->a, b->a);
  if (a->k == K_NOT && b->k == K_NOT) return mkCmpS(k, b->a, a->a);
  if (a->k == K_NOT && isConst(b)) return mkCmpS(k, mkConst(~b->val, w), a->a);
  if (b->k == K_NOT && isConst(a)) return mkCmpS(k, b->a, mkConst(~a->val, w));
  if (w <= 128) {
    u128 sb = (u128)1 << (w - 1);
    auto flips = [&](Node* n) { return n->k == K_XOR && isConst(n->b) && n->b->val == sb; };
    if (flips(a) && flips(b)) return mkCmpS(sgn ? (strict ? K_ULT : K_ULE) : (strict ? K_SLT : K_SLE), a->a, b->a);
    if (flips(a) && isConst(b)) return mkCmpS(sgn ? (strict ? K_ULT : K_ULE) : (strict ? K_SLT : K_SLE), a->a, mkConst(b->val ^ sb, w));
    if (flips(b) && isConst(a)) return mkCmpS(sgn ? (strict ? K_ULT : K_ULE) : (strict ? K_SLT : K_SLE), mkConst(a->val ^ sb, w), b->a);
  }
  if (isConst(b) && w <= 128) {
    if (k == K_ULT) { if (b->val == 0) return mkConst(0, 1); if (b->val == 1) return mkEqS(a, mkConst(0, w)); if (b->val == maskw(w)) return mkNot(mkEqS(a, b)); }
    if (k == K_ULE) { if (b->val == maskw(w)) return mkConst(1, 1); return mkCmpS(K_ULT, a, mkConst(b->val + 1, w)); }
    if (k == K_SLE) { if (b->val == (maskw(w) >> 1)) return mkConst(1, 1); return mkCmpS(K_SLT, a, mkConst(b->val + 1, w)); }
    if (k == K_SLT && b->val == ((u128)1 << (w - 1))) return mkConst(0, 1);
    if (a->k == K_ITE && (isConst(a->b) || isConst(a->c))) return mkIte(a->a, mkCmpS(k, a->b, b), mkCmpS(k, a->c, b));
    if (a->k == K_ZEXT) {
      if (sgn && sx(b->val, w) < 0) return mkConst(0, 1);
      if (b->val >> a->a->w) return mkConst(1, 1);
      return mkCmpS(strict ? K_ULT : K_ULE, a->a, mkConst(b->val, a->a->w));
    }
  } else if (isConst(a) && w <= 128) {
    if (k == K_ULT) { if (a->val == maskw(w)) return mkConst(0, 1); return mkNot(mkCmpS(K_ULT, b, mkConst(a->val + 1, w))); }
    if (k == K_ULE) { if (a->val == 0) return mkConst(1, 1); return mkNot(mkCmpS(K_ULT, b, a)); }
    if (k == K_SLE) { if (a->val == ((u128)1 << (w - 1))) return mkConst(1, 1); return mkNot(mkCmpS(K_SLT, b, a)); }
    if (k == K_SLT) { if (a->val == (maskw(w) >> 1)) return mkConst(0, 1); return mkNot(mkCmpS(K_SLT, b, mkConst(a->val + 1, w))); }
  }
  if (w <= 64) {
    interval(a); interval(b);
    if (sgn) {
      if (strict ? a->hi < b->lo : a->hi <= b->lo) return mkConst(1, 1);
      if (strict ? a->lo >= b->hi : a->lo > b->hi) return mkConst(0, 1);
    } else if (a->lo >= 0 && b->lo >= 0) {
      if (strict ? a->hi < b->lo : a->hi <= b->lo) return mkConst(1, 1);
      if (strict ? a->lo >= b->hi : a->lo > b->hi) return mkConst(0, 1);
    }
  }
  if (k == K_ULE || k == K_SLE) return mkNot(intern(k == K_ULE ? K_ULT : K_SLT, 1, 0, b, a, nullptr, 0)) ;
  return intern(k, 1, 0, a, b, nullptr, 0);
}

Node* mkBin(Kind k, Node* a, Node* b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %u vs %u\n", k, a->w, b->w); abort(); }
  if (k == K_EQ) { if (isConst(a) && isConst(b)) return mkConst(a->val == b->val, 1); return mkEqS(a, b); }
  if (isCmp(k)) {
    // canonical non-strict compares: expressed as the negation of the strict one
    if ((k == K_ULE || k == K_SLE)) {
      if (isConst(a) && isConst(b)) return mkConst(foldBin(k, a->val, b->val, w), 1);
      Node* s = mkCmpS(k == K_ULE ? K_ULT : K_SLT, b, a);
      if (isConst(s)) return mkConst(!s->val, 1);
      if (s->k == K_NOT) return s->a;
      return intern(K_NOT, 1, 0, s, nullptr, nullptr, 0);
    }
    return mkCmpS(k, a, b);
  }
  if (isConst(a) && isConst(b) && w <= 128) return mkConst(foldBin(k, a->val, b->val, w), w);
  bool comm = k == K_AND || k == K_OR || k == K_XOR || k == K_ADD || k == K_MUL;
  if (comm && isConst(a)) std::swap(a, b);
  switch (k) {
    case K_AND: case K_OR: case K_XOR: {
      if (Node* r = bitwisePiece(k, a, b)) return r;
      if (w == 1 || true) {
        if (k != K_XOR && ((a->k == K_NOT && a->a == b) || (b->k == K_NOT && b->a == a))) return mkConst(k == K_AND ? 0 : maskw(w), w);
      }
      if (w == 1) {
        if (k == K_AND) { // absorption
          if (a->k == K_AND && (a->a == b || a->b == b)) return a;
          if (b->k == K_AND && (b->a == a || b->b == a)) return b;
        }
        if (k == K_OR) {
          if (a->k == K_OR && (a->a == b || a->b == b)) return a;
          if (b->k == K_OR && (b->a == a || b->b == a)) return b;
        }
        if (k == K_XOR) { if (a->k == K_NOT) return mkNot(mkBin(K_XOR, a->a, b)); if (b->k == K_NOT) return mkNot(mkBin(K_XOR, a, b->a)); }
      } else {
        if (isConst(b) && a->k == k && isConst(a->b)) return mkBin(k, a->a, mkConst(foldBin(k, a->b->val, b->val, w), w));
        if (isConst(b) && a->k == K_ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
        if (Node* r = trySegments(k, a, b)) return r;
      }
      break;
    }
    case K_ADD:
      if (isConst(b)) {
        if (b->val == 0) return a;
        if (a->k == K_ADD && isConst(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->val + b->val, w));
        if (a->k == K_SUB && isConst(a->a)) return mkBin(K_SUB, mkConst(a->a->val + b->val, w), a->b);
        if (a->k == K_ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      } else {
        if (a->k == K_ADD && isConst(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
        if (b->k == K_ADD && isConst(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
        if (a->k == K_SUB && a->b == b) return a->a;
        if (b->k == K_SUB && b->b == a) return b->a;
      }
      break;
    case K_SUB:
      if (a == b) return mkConst(0, w);
      if (isConst(b)) return mkBin(K_ADD, a, mkConst(0 - b->val, w));
      if (a->k == K_ADD && a->a == b) return a->b;
      if (a->k == K_ADD && a->b == b) return a->a;
      if (a->k == K_ADD && isConst(a->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
      if (b->k == K_ADD && isConst(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkConst(0 - b->b->val, w));
      break;
    case K_MUL:
      if (isConst(b)) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(K_SHL, a, mkConst(s, w)); }
        if (a->k == K_ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      }
      break;
    case K_UDIV: case_div:
      if (isConst(b) && b->val && w <= 64 && a->k == K_ADD) for (int sw = 0; sw < 2; ++sw) { Node* m = sw ? a->b : a->a; Node* y = sw ? a->a : a->b; if (m->k == K_MUL && isConst(m->b) && m->b->val == b->val) { interval(m->a); interval(y); interval(a); i128 c = (i128)b->val, top = (i128)1 << (w - 1); if (m->a->lo >= 0 && y->lo >= 0 && y->hi < c && c < top && m->a->hi <= (top - 1 - y->hi) / c) return k == K_UREM ? y : m->a; } }
      if (w > 8 && w <= 64 && !(isConst(a) && isConst(b))) { interval(a); interval(b); i128 h = a->hi > b->hi ? a->hi : b->hi; if (a->lo >= 0 && b->lo > 0) { unsigned nb = 1; while (((i128)1 << nb) <= h) nb++; if (nb + 4 < w && !(isConst(b) && (b->val & (b->val - 1)) == 0)) { if (isConst(b) && a->k == K_MUL && isConst(a->b) && a->b->val == b->val) {} else return mkZExt(mkBin(k, mkExtract(a, 0, nb), mkExtract(b, 0, nb)), w); } } }
      if (k == K_UREM) goto urem_rest;
      if (isConst(b) && w <= 64 && a->k == K_MUL && isConst(a->b) && a->b->val == b->val && b->val) { interval(a->a); if (a->a->lo >= 0 && b->val < ((u128)1 << 62) && a->a->hi <= (i128)(maskw(w - 1) / b->val)) return a->a; }
      if (isConst(b)) { if (b->val == 1) return a; if (b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(K_LSHR, a, mkConst(s, w)); } }
      break;
    case K_UREM: goto case_div; urem_rest:
      if (isConst(b)) { if (b->val == 1) return mkConst(0, w); if (b->val && (b->val & (b->val - 1)) == 0) return mkBin(K_AND, a, mkConst(b->val - 1, w)); }
      break;
    case K_SDIV: if (isConst(b) && b->val == 1) return a;
      if (w <= 64) { interval(a); interval(b); if (a->lo >= 0 && b->lo >= 0) return mkBin(K_UDIV, a, b); }
      break;
    case K_SREM:
      if (w <= 64) { interval(a); interval(b); if (a->lo >= 0 && b->lo >= 0) return mkBin(K_UREM, a, b); }
      break;
    case K_SHL:
      if (isConst(b)) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w); unsigned s = (unsigned)b->val; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      break;
    case K_LSHR:
      if (isConst(b)) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w); unsigned s = (unsigned)b->val; return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case K_ASHR:
      if (isConst(b)) { if (b->val == 0) return a; unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    default: break;
  }
  if (comm && !isConst(b) && a->id > b->id) std::swap(a, b);
  return intern(k, w, 0, a, b, nullptr, 0);
}

// ---- exact-integer floats: SITOFP(e64) with a proven interval inside the exactly representable range
static Node* intOfFp(Node* n) {  // returns a 64-bit integer node whose SITOFP is n, with exact representation
  if (n->k == K_SITOFP && n->a->w == 64) {
    interval(n->a);
    i128 lim = n->w == 32 ? ((i128)1 << 24) : ((i128)1 << 53);
    if (n->a->lo >= -lim && n->a->hi <= lim) return n->a;
    return nullptr;
  }
  if (isConst(n)) {
    double d = n->w == 32 ? (double)asF(n->val) : asD(n->val);
    double lim = n->w == 32 ? 16777216.0 : 9007199254740992.0;
    if (d == std::floor(d) && std::fabs(d) <= lim && !(d == 0 && std::signbit(d))) return mkConst((u128)(i128)(int64_t)d, 64);
  }
  return nullptr;
}
// canonical sum of products over exact integers (associativity/commutativity), so that differently
// ordered SIMD reductions of the same terms become the same node
static void sumTerms(Node* n, bool neg, std::vector<std::pair<Node*, i128>>& out) {
  if (n->k == K_ADD) { sumTerms(n->a, neg, out); sumTerms(n->b, neg, out); return; }
  if (n->k == K_SUB) { sumTerms(n->a, neg, out); sumTerms(n->b, !neg, out); return; }
  out.push_back({n, neg ? -1 : 1});
}
static Node* canonSum(Node* n) {
  std::vector<std::pair<Node*, i128>> t;
  sumTerms(n, false, t);
  std::sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  u128 k = 0; std::vector<std::pair<Node*, i128>> m;
  for (auto& p : t) {
    if (isConst(p.first)) { k += (u128)(sx(p.first->val, 64) * p.second); continue; }
    if (!m.empty() && m.back().first == p.first) m.back().second += p.second; else m.push_back(p);
  }
  Node* r = nullptr;
  for (auto& p : m) {
    if (p.second == 0) continue;
    Node* x = p.first; i128 c = p.second;
    bool ng = c < 0; if (ng) c = -c;
    if (c != 1) x = intern(K_MUL, 64, 0, x, mkConst((u128)c, 64), nullptr, 0);
    if (!r) { r = ng ? intern(K_SUB, 64, 0, mkConst(0, 64), x, nullptr, 0) : x; }
    else r = intern(ng ? K_SUB : K_ADD, 64, 0, r, x, nullptr, 0);
  }
  if (!r) return mkConst(k, 64);
  if (k & maskw(64)) r = intern(K_ADD, 64, 0, r, mkConst(k, 64), nullptr, 0);
  return r;
}
static Node* fpFromInt(Node* i, unsigned w) {  // result must be in exact range, else null
  interval(i);
  i128 lim = w == 32 ? ((i128)1 << 24) : ((i128)1 << 53);
  if (i->lo < -lim || i->hi > lim) return nullptr;
  if (isConst(i)) return mkConst(foldFp(K_SITOFP, w, 64, i->val, 0, 0), w);
  return intern(K_SITOFP, w, 0, i, nullptr, nullptr, 0);
}

Node* mkFp(Kind k, unsigned w, Node* a, Node* b, Node* c) {
  unsigned aw = a->w;
  if (isConst(a) && (!b || isConst(b)) && (!c || isConst(c)))
    return mkConst(foldFp(k, w, aw, a->val, b ? b->val : 0, c ? c->val : 0), w);
  if (k == K_SITOFP && aw < 64) return mkFp(K_SITOFP, w, mkSExt(a, 64));
  if (k == K_UITOFP && aw < 64) return mkFp(K_SITOFP, w, mkZExt(a, 64));
  if (k == K_FADD || k == K_FSUB || k == K_FMUL || k == K_FFMA || k == K_FNEG || k == K_FOEQ || k == K_FOLT || k == K_FOLE || k == K_FUNO || k == K_FABS) {
    Node* ia = intOfFp(a); Node* ib = b ? intOfFp(b) : nullptr; Node* ic = c ? intOfFp(c) : nullptr;
    if (ia && (!b || ib) && (!c || ic)) {
      Node* r = nullptr; Node* f;
      auto prod = [&](Node* x, Node* y) { if (isConst(x)) std::swap(x, y); if (isConst(y)) { if (y->val == 0) return y; if (y->val == 1) return x; } else if (x->id > y->id) std::swap(x, y); return intern(K_MUL, 64, 0, x, y, nullptr, 0); };
      switch (k) {
        case K_FADD: r = canonSum(intern(K_ADD, 64, 0, ia, ib, nullptr, 0)); if ((f = fpFromInt(r, w))) return f; break;
        case K_FSUB: r = canonSum(intern(K_SUB, 64, 0, ia, ib, nullptr, 0)); if ((f = fpFromInt(r, w))) return f; break;
        case K_FMUL: r = prod(ia, ib); if ((f = fpFromInt(r, w))) return f; break;
        case K_FFMA: { Node* p = prod(ia, ib); r = canonSum(intern(K_ADD, 64, 0, p, ic, nullptr, 0)); if ((f = fpFromInt(r, w))) return f; break; }
        case K_FOEQ: return mkEq(ia, ib);
        case K_FOLT: return mkBin(K_SLT, ia, ib);
        case K_FOLE: return mkBin(K_SLE, ia, ib);
        case K_FUNO: return mkConst(0, 1);
        case K_FNEG: r = canonSum(intern(K_SUB, 64, 0, mkConst(0, 64), ia, nullptr, 0)); if ((f = fpFromInt(r, w))) return f; break;
        default: break;
      }
    }
  }
  if (k == K_FPCVT) {
    if (w == aw) return a;
    if (Node* ia = intOfFp(a)) if (Node* f = fpFromInt(ia, w)) return f;
  }
  if (k == K_FPTOSI) if (Node* ia = intOfFp(a)) return mkExtract(mkSExt(ia, 128), 0, w);
  if ((k == K_FADD || k == K_FMUL || k == K_FOEQ) && a->id > b->id) std::swap(a, b);
  return intern(k, w, 0, a, b, c, 0);
}

// ---------------------------------------------------------------- evaluation
u128 evalNode(Node* n, const Model& m, uint64_t ep) {
  if (n->k == K_CONST) return n->val;
  if (n->ev_epoch == ep) return n->ev_val;
  u128 r = 0;
  // wide (>128 bit) values never reach evaluation except under EQ/ULT of concats, which memcmp modelling avoids
  switch (n->k) {
    case K_VAR: r = n->aux < m.size() ? m[n->aux] & maskw(n->w) : 0; break;
    case K_NOT: r = ~evalNode(n->a, m, ep) & maskw(n->w); break;
    case K_ITE: r = evalNode(n->a, m, ep) ? evalNode(n->b, m, ep) : evalNode(n->c, m, ep); break;
    case K_CONCAT: r = (evalNode(n->a, m, ep) << n->b->w) | evalNode(n->b, m, ep); break;
    case K_EXTRACT: r = (evalNode(n->a, m, ep) >> n->aux) & maskw(n->w); break;
    case K_ZEXT: r = evalNode(n->a, m, ep); break;
    case K_SEXT: r = (u128)sx(evalNode(n->a, m, ep), n->a->w) & maskw(n->w); break;
    default:
      if (n->k >= K_FADD) r = foldFp(n->k, n->w, n->a->w, evalNode(n->a, m, ep), n->b ? evalNode(n->b, m, ep) : 0, n->c ? evalNode(n->c, m, ep) : 0) & maskw(n->w);
      else r = foldBin(n->k, evalNode(n->a, m, ep), evalNode(n->b, m, ep), n->a->w);
  }
  n->ev_epoch = ep; n->ev_val = r;
  return r;
}

const std::vector<uint32_t>& freeVars(Node* n) {
  static const std::vector<uint32_t> empty;
  if (n->vars) return *n->vars;
  if (n->k == K_CONST) return empty;
  if (n->k == K_VAR) { n->vars = new std::vector<uint32_t>{n->aux}; return *n->vars; }
  const std::vector<uint32_t>*pa = n->a ? &freeVars(n->a) : &empty, *pb = n->b ? &freeVars(n->b) : &empty, *pc = n->c ? &freeVars(n->c) : &empty;
  // share when one side covers the result
  if (pb->empty() && pc->empty() && !pa->empty()) { n->vars = const_cast<std::vector<uint32_t>*>(pa); return *n->vars; }
  std::vector<uint32_t> t, r;
  std::set_union(pa->begin(), pa->end(), pb->begin(), pb->end(), std::back_inserter(t));
  std::set_union(t.begin(), t.end(), pc->begin(), pc->end(), std::back_inserter(r));
  for (auto* p : {pa, pb, pc}) if (p->size() == r.size()) { n->vars = const_cast<std::vector<uint32_t>*>(p); if (n->vars != &empty) return *n->vars; }
  n->vars = new std::vector<uint32_t>(std::move(r));
  return *n->vars;
}

std::string toStr(Node* n, int d) {
  static const char* nm[] = {"const", "var", "not", "and", "or", "xor", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "=", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "fsqrt", "fneg", "fabs", "ffma", "foeq", "folt", "fole", "funo", "fpcvt", "sitofp", "uitofp", "fptosi", "fptoui"};
  char buf[64];
  if (n->k == K_CONST) { if (n->val >> 64) snprintf(buf, 64, "0x%llx%016llx:%u", (unsigned long long)(n->val >> 64), (unsigned long long)n->val, n->w); else snprintf(buf, 64, "0x%llx:%u", (unsigned long long)n->val, n->w); return buf; }
  if (n->k == K_VAR) return g_vars[n->aux].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + nm[n->k];
  if (n->k == K_EXTRACT) s += "[" + std::to_string(n->aux + n->w - 1) + ":" + std::to_string(n->aux) + "]";
  if (n->k == K_ZEXT || n->k == K_SEXT) s += ":" + std::to_string(n->w);
  for (Node* c : {n->a, n->b, n->c}) if (c) s += " " + toStr(c, d - 1);
  return s + ")";
}
