// Hash-consed bit-vector / floating-point expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <memory>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_NOT, K_AND, K_OR, K_XOR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  // floating point (values are IEEE bit patterns, width 32 or 64)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FSQRT, K_FNEG, K_FABS, K_FFMA,
  K_FOEQ, K_FOLT, K_FOLE, K_FUNO,
  K_FPCVT,   // float<->double, a, width = target
  K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI,
  K_AGG,
};

struct Node {
  Kind k;
  uint16_t w;      // result width in bits
  uint32_t id;
  uint32_t aux;    // EXTRACT: low bit; VAR: var index
  Node *a, *b, *c;
  u128 val;        // CONST
  // evaluation memo
  uint64_t ev_epoch;
  u128 ev_val;
  // for exact-integer reasoning
  i128 lo, hi;     // signed interval (valid if w<=64)
  bool ivset;
  void* z3;        // cached translation (Z3_ast)
  std::vector<uint32_t>* vars;  // sorted free variables
};

// A runtime value: concrete scalar (e==null) or symbolic scalar (e is non-AGG) or aggregate.
struct Agg;
struct Val {
  uint64_t c;
  Node* e;
  Val() : c(0), e(nullptr) {}
  Val(uint64_t v) : c(v), e(nullptr) {}
  Val(Node* n);
  static Val agg(Agg* a) { Val v; v.e = (Node*)a; return v; }
  bool isAgg() const { return e && e->k == K_AGG; }
  Agg* asAgg() const { return (Agg*)e; }
  bool conc() const { return e == nullptr; }
};
struct Agg {
  Kind k;  // K_AGG; must be the first member, as in Node
  uint32_t n;
  Val v[1];
  static Agg* make(uint32_t n);
};
static_assert(offsetof(Node, k) == 0, "");

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;
extern uint64_t g_nodes;

Node* mkConst(u128 v, unsigned w);
Node* mkVar(const std::string& name, unsigned w);
Node* mkBin(Kind k, Node* a, Node* b);
Node* mkNot(Node* a);
Node* mkIte(Node* c, Node* a, Node* b);
Node* mkConcat(Node* hi, Node* lo);
Node* mkExtract(Node* a, unsigned lo, unsigned w);
Node* mkZExt(Node* a, unsigned w);
Node* mkSExt(Node* a, unsigned w);
Node* mkFp(Kind k, unsigned w, Node* a, Node* b = nullptr, Node* c = nullptr);
inline Node* mkEq(Node* a, Node* b) { return mkBin(K_EQ, a, b); }
inline Node* mkAnd(Node* a, Node* b) { return mkBin(K_AND, a, b); }
inline Node* mkOr(Node* a, Node* b) { return mkBin(K_OR, a, b); }
inline Node* mkAdd(Node* a, Node* b) { return mkBin(K_ADD, a, b); }
inline bool isConst(const Node* n) { return n->k == K_CONST; }
inline bool isTrue(const Node* n) { return n->k == K_CONST && n->w == 1 && n->val == 1; }
inline bool isFalse(const Node* n) { return n->k == K_CONST && n->w == 1 && n->val == 0; }
unsigned trailingZeros(Node* n);

// concrete semantics, used by folding and by model evaluation
u128 foldBin(Kind k, u128 a, u128 b, unsigned w);
u128 foldFp(Kind k, unsigned w, unsigned aw, u128 a, u128 b, u128 c);

typedef std::vector<u128> Model;  // indexed by variable
u128 evalNode(Node* n, const Model& m, uint64_t epoch);
uint64_t newEpoch();

const std::vector<uint32_t>& freeVars(Node* n);
std::string toStr(Node* n, int depth = 6);

inline Val::Val(Node* n) : c(0), e(n) {
  if (n && n->k == K_CONST && n->w <= 64) { c = (uint64_t)n->val; e = nullptr; }
}
inline Node* toNode(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
