// Symbolic executor over LLVM IR.
#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32;

// ------------------------------------------------------------------ options / globals
static std::string o_out = "/dev/stdout", o_entry = "harness_main", o_tmp = "/tmp", o_root = "/repo/src";
static double o_maxTime = 300; static u64 o_maxSteps = 50000000; static int o_workers = 1; static bool o_all = false;
static u64 o_maxConc = 4096; static int o_verbose = 0; static unsigned o_samples = 8; static bool o_bfs = false; static bool o_lines = false; static u64 o_seed = 1;
static std::map<std::string, u64> o_params; static std::vector<std::string> o_known;
static Module* M; static const DataLayout* DL;
struct Shared { volatile int active; volatile int stop; volatile u64 paths; volatile u64 found; };
static Shared* g_sh;
static std::chrono::steady_clock::time_point g_t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

struct Results {
  u64 paths = 0, completed = 0, assumed = 0, errors = 0, steps = 0, forks = 0, asserts = 0, assertsSym = 0, branchesSym = 0;
  std::map<std::string, u64> incomplete;
  std::map<std::string, std::string> violations;  // key -> json body
  std::map<std::string, u64> covers;
  std::vector<std::string> samples;
  std::set<std::string> funcs, lines;
  SolverStats ss;
} R;
static int g_depthForks = 0;

static std::string jesc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}

struct PathEnd { };            // path is over (already accounted)
[[noreturn]] static void endPath() { throw PathEnd(); }

static State* cur = nullptr;
static std::vector<State*> work;

// ------------------------------------------------------------------ memory
static Obj* cloneObj(Obj* o) {
  Obj* n = new Obj(*o); n->ref = 1;
  n->data = (uint8_t*)malloc(o->size + 1); memcpy(n->data, o->data, o->size);
  if (o->sym) { n->sym = (Node**)malloc(sizeof(Node*) * (o->size + 1)); memcpy(n->sym, o->sym, sizeof(Node*) * o->size); }
  return n;
}
static void derefObj(Obj* o) { if (o && --o->ref == 0) { free(o->data); free(o->sym); delete o; } }
static void derefChunk(Chunk* c) { if (--c->ref == 0) { for (int i = 0; i < CH; i++) derefObj(c->o[i]); delete c; } }
Memory::Memory(const Memory& m) : ch(m.ch), next(m.next) { for (Chunk* c : ch) c->ref++; }
Memory::~Memory() { for (Chunk* c : ch) derefChunk(c); }
static Chunk* chunkW(Memory& m, u64 ci) {
  Chunk*& c = m.ch[ci];
  if (c->ref > 1) { Chunk* n = new Chunk; n->ref = 1; for (int i = 0; i < CH; i++) { n->o[i] = c->o[i]; if (n->o[i]) n->o[i]->ref++; } c->ref--; c = n; }
  return c;
}
u64 Memory::alloc(u64 size, int kind, int fill) {
  u64 idx = next++;
  while (ch.size() <= idx / CH) { Chunk* c = new Chunk; memset(c->o, 0, sizeof c->o); ch.push_back(c); }
  Chunk* c = chunkW(*this, idx / CH);
  Obj* o = new Obj; o->size = size; o->kind = kind; o->data = (uint8_t*)malloc(size + 1); memset(o->data, fill, size);
  c->o[idx % CH] = o; return idx;
}
Obj* Memory::getW(u64 idx) {
  Chunk* c = chunkW(*this, idx / CH); Obj*& o = c->o[idx % CH];
  if (o->ref > 1) { Obj* n = cloneObj(o); o->ref--; o = n; }
  return o;
}
State::State(const State& s) : stack(s.stack), mem(s.mem), pc(s.pc), known(s.known), model(s.model), inputs(s.inputs), obs(s.obs), covers(s.covers),
  steps(s.steps), nextEntry(s.nextEntry), unwinding(s.unwinding), excs(s.excs), caught(s.caught), depth(s.depth), threads(s.threads), cur(s.cur) { for (Frame* f : stack) f->ref++; for (auto& t : threads) for (Frame* f : t) f->ref++; }
State::~State() { for (Frame* f : stack) if (--f->ref == 0) delete f; for (auto& t : threads) for (Frame* f : t) if (--f->ref == 0) delete f; }

static inline u64 mkAddr(u64 idx, u64 off) { return (idx << 24) + off; }
static u64 allocMem(State& s, u64 size, int kind, int fill = 0xCD) { return mkAddr(s.mem.alloc(size, kind, fill), 0); }

// ------------------------------------------------------------------ reporting
static std::string locStr(const Instruction* I) {
  if (!I) return "?";
  const DILocation* d = I->getDebugLoc().get();
  if (!d) return I->getFunction()->getName().str();
  std::string r; int n = 0;
  for (; d && n < 6; d = d->getInlinedAt(), n++) {
    std::string f = d->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
    std::string fn; if (auto* sp = d->getScope()->getSubprogram()) fn = sp->getName().str();
    r += (n ? "<" : "") + fn + "@" + f + ":" + std::to_string(d->getLine());
  }
  return r;
}
static std::string traceStr(State& s) {
  std::string r;
  for (int i = (int)s.stack.size() - 1, n = 0; i >= 0 && n < 14; i--, n++) {
    Frame* f = s.stack[i];
    const CBlock& b = f->f->blocks[f->bb];
    r += (n ? " | " : "") + locStr(f->ip < (int)b.insts.size() ? b.insts[f->ip].I : nullptr);
  }
  return r;
}
static std::string u128s(u128 v) { if (!v) return "0"; std::string s; while (v) { s = char('0' + (int)(v % 10)) + s; v /= 10; } return s; }
static std::string inputsJson(State& s, const Model& m) {
  std::string r = "[";
  for (size_t i = 0; i < s.inputs.size(); i++) { u32 v = s.inputs[i]; if (i) r += ","; r += "[\"" + jesc(g_vars[v].name) + "\"," + std::to_string(g_vars[v].w) + ",\"" + u128s(v < m.size() ? m[v] : 0) + "\"]"; }
  return r + "]";
}
static std::string obsJson(State& s, const Model& m) {
  std::string r = "["; u64 ep = newEpoch(); bool first = true;
  for (auto& o : s.obs) { if (!first) r += ","; first = false; u64 v = o.second.e ? (u64)evalNode(o.second.e, m, ep) : o.second.c; r += "[\"" + jesc(o.first) + "\",\"" + std::to_string(v) + "\"]"; }
  return r + "]";
}
static bool isKnown(const std::string& msg) { for (auto& k : o_known) if (msg.find(k) != std::string::npos) return true; return false; }
static void violation(State& s, const std::string& kind, const std::string& msg, const Model& m) {
  Frame& f = *s.stack.back(); const CBlock& b = f.f->blocks[f.bb];
  std::string key = kind + ": " + msg;
  if (kind != "assert") key += " at " + locStr(f.ip < (int)b.insts.size() ? b.insts[f.ip].I : nullptr);
  R.errors++;
  if (R.violations.count(key)) return;
  std::string body = "{\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"trace\":\"" + jesc(traceStr(s)) + "\",\"inputs\":" + inputsJson(s, m) + ",\"obs\":" + obsJson(s, m) + ",\"t\":" + std::to_string(now()) + "}";
  R.violations[key] = body;
  if (o_verbose) fprintf(stderr, "[%d %.1fs] VIOL %s\n   %s\n   %s\n", getpid(), now(), key.c_str(), traceStr(s).c_str(), inputsJson(s, m).c_str());
  if (!o_all && !isKnown(key)) g_sh->stop = 1;
}
[[noreturn]] static void error(State& s, const std::string& kind, const std::string& msg) { violation(s, kind, msg, s.model); endPath(); }
[[noreturn]] static void unsupported(State& s, const std::string& what) {
  R.incomplete["unsupported: " + what]++;
  if (o_verbose && R.incomplete["unsupported: " + what] == 1) fprintf(stderr, "UNSUPPORTED %s\n   %s\n", what.c_str(), traceStr(s).c_str());
  endPath();
}

// ------------------------------------------------------------------ forking
static void pushState(State* n) { n->top(); n->depth++; R.forks++; work.push_back(n); }
static bool inList(const std::vector<Node*>& v, Node* n) { for (size_t i = v.size(); i-- > 0;) if (v[i] == n) return true; return false; }
static void addPc(State& s, Node* c) {
  if (isConst(c)) return;
  if (c->k == K_AND && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; }
  if (!inList(s.pc, c)) s.pc.push_back(c);
}
static bool evalB(State& s, Node* c) { return evalNode(c, s.model, newEpoch()) & 1; }

// Which way does cond go?  The other feasible way, if any, is queued as a copy of the state that re-executes the instruction.
static bool decide(State& s, Node* c) {
  if (isConst(c)) return c->val & 1;
  Node* nc = mkNot(c);
  if (inList(s.pc, c) || inList(s.known, c)) return true;
  if (inList(s.pc, nc) || inList(s.known, nc)) return false;
  R.branchesSym++;
  bool v = evalB(s, c);
  Node* mine = v ? c : nc; Node* oth = v ? nc : c;
  Model m2;
  Sat r = solve(s.pc, oth, s.model, &m2);
  if (r == Sat::kSat) {
    State* n = new State(s); n->model = std::move(m2); addPc(*n, oth); pushState(n);
    addPc(s, mine);
  } else {
    if (r == Sat::kUnknown) { R.incomplete["solver gave no answer on a branch"]++; addPc(s, mine); }
    else s.known.push_back(mine);
  }
  return v;
}
static u64 concretizeNode(State& s, Node* e) {
  if (isConst(e)) return (u64)e->val;
  u64 v = (u64)evalNode(e, s.model, newEpoch());
  Node* c = mkEq(e, mkConst(v, e->w));
  if (isConst(c)) return v;
  if (inList(s.pc, c) || inList(s.known, c)) return v;
  Model m2; Node* nc = mkNot(c);
  Sat r = solve(s.pc, nc, s.model, &m2);
  if (r == Sat::kSat) {
    State* n = new State(s); n->model = std::move(m2); addPc(*n, nc); pushState(n);
    addPc(s, c);
  } else { if (r == Sat::kUnknown) { R.incomplete["solver gave no answer on a concretisation"]++; addPc(s, c); } else s.known.push_back(c); }
  return v;
}
static u64 conc(State& s, const Val& v) { if (!v.e) return v.c; return concretizeNode(s, v.e); }
static void assume(State& s, Node* c) {
  if (isConst(c)) { if (c->val & 1) return; R.assumed++; endPath(); }
  if (inList(s.pc, c) || inList(s.known, c)) return;
  if (evalB(s, c)) { addPc(s, c); return; }
  Model m2; Sat r = solve(s.pc, c, s.model, &m2);
  if (r == Sat::kUnsat) { R.assumed++; endPath(); }
  if (r == Sat::kUnknown) { R.incomplete["solver gave no answer on an assumption"]++; endPath(); }
  s.model = std::move(m2); addPc(s, c);
}
// c must hold; otherwise a violation is reported.  Continues with c assumed.
static void require(State& s, Node* c, const std::string& kind, const std::string& msg) {
  R.asserts++;
  if (isConst(c)) { if (c->val & 1) return; error(s, kind, msg); }
  R.assertsSym++;
  if (inList(s.pc, c) || inList(s.known, c)) return;
  Node* nc = mkNot(c);
  if (!evalB(s, c)) {
    violation(s, kind, msg, s.model);
    Model m2; Sat r = solve(s.pc, c, s.model, &m2);
    if (r != Sat::kSat) endPath();
    s.model = std::move(m2); addPc(s, c); return;
  }
  Model m2; Sat r = solve(s.pc, nc, s.model, &m2);
  if (r == Sat::kSat) { violation(s, kind, msg, m2); addPc(s, c); }
  else if (r == Sat::kUnknown) { R.incomplete["undecided assertion: " + msg]++; addPc(s, c); }
  else s.known.push_back(c);
}

// ------------------------------------------------------------------ memory access
static const Obj* objAt(State& s, u64 addr, u64 size, bool write, u64& off) {
  u64 idx = addr >> 24; off = addr & 0xFFFFFF;
  if (idx == 0 || idx >= s.mem.next) error(s, "memory", idx == 0 ? "null pointer dereference" : "wild pointer dereference");
  const Obj* o = s.mem.get(idx);
  if (!o) error(s, "memory", "wild pointer dereference");
  if (!o->alive) error(s, "memory", o->kind == 1 ? "use of a stack object after return" : "use after free");
  if (off + size > o->size) error(s, "memory", std::string(write ? "write" : "read") + " out of bounds");
  if (write && o->ro) error(s, "memory", "write to read-only memory");
  return o;
}
static Val loadObj(const Obj* o, u64 off, unsigned nbytes, unsigned w) {
  bool sy = false;
  if (o->sym) for (unsigned i = 0; i < nbytes; i++) if (o->sym[off + i]) { sy = true; break; }
  if (!sy && nbytes <= 8) { u64 v = 0; memcpy(&v, o->data + off, nbytes); if (w < 64) v &= ((u64)1 << w) - 1; return Val(v); }
  if (nbytes > 16) abort();
  Node* r = nullptr;
  for (int i = nbytes - 1; i >= 0; i--) { Node* b = o->sym && o->sym[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8); r = r ? mkConcat(r, b) : b; }
  if (w < nbytes * 8) r = mkExtract(r, 0, w);
  return Val(r);
}
static void storeObj(Obj* o, u64 off, unsigned nbytes, const Val& v, unsigned w) {
  if (!v.e) { memcpy(o->data + off, &v.c, nbytes > 8 ? 8 : nbytes); if (nbytes > 8) memset(o->data + off + 8, 0, nbytes - 8); if (o->sym) for (unsigned i = 0; i < nbytes; i++) o->sym[off + i] = nullptr; return; }
  Node* n = v.e; if (n->w < nbytes * 8) n = mkZExt(n, nbytes * 8);
  if (!o->sym) { o->sym = (Node**)calloc(o->size + 1, sizeof(Node*)); }
  for (unsigned i = 0; i < nbytes; i++) {
    Node* b = mkExtract(n, i * 8, 8);
    if (isConst(b)) { o->data[off + i] = (uint8_t)b->val; o->sym[off + i] = nullptr; } else { o->sym[off + i] = b; }
  }
}
static void interval_u(Node* n, u64& lo, u64& hi);

// Make a pointer concrete, forking on ITEs and (last resort) on values.
static u64 concPtr(State& s, const Val& p) {
  if (!p.e) return p.c;
  Node* e = p.e;
  while (e->k == K_ITE) { e = decide(s, e->a) ? e->b : e->c; }
  if (isConst(e)) return (u64)e->val;
  return concretizeNode(s, e);
}
static bool symRead(State& s, Node* e, unsigned nbytes, unsigned w, Val& out) {
  u64 a0 = (u64)evalNode(e, s.model, newEpoch()); u64 idx = a0 >> 24;
  if (idx == 0 || idx >= s.mem.next) return false;
  const Obj* o = s.mem.get(idx); if (!o || !o->alive || o->size > 8192) return false;
  Node* base = mkConst(mkAddr(idx, 0), 64);
  Node* off = mkBin(K_SUB, e, base);
  if (o->size < nbytes) return false;
  Node* inb = mkBin(K_ULE, off, mkConst(o->size - nbytes, 64));
  if (!inList(s.pc, inb) && !inList(s.known, inb) && !isTrue(inb)) {
    if (!evalB(s, inb)) return false;
    Model m2; Sat r = solve(s.pc, mkNot(inb), s.model, &m2);
    if (r != Sat::kUnsat) return false;  // may leave the object: concretise instead
    s.known.push_back(inb);
  }
  unsigned tz = trailingZeros(off); u64 st = tz >= 12 ? 4096 : (u64)1 << tz;
  if ((o->size - nbytes) / st + 1 > 300) return false;
  Node* r = nullptr;
  for (u64 k = 0; k + nbytes <= o->size; k += st) {
    Val v = loadObj(o, k, nbytes, w); Node* vn = toNode(v, w);
    r = r ? mkIte(mkEq(off, mkConst(k, 64)), vn, r) : vn;
  }
  out = Val(r); return true;
}
static Val loadMem(State& s, const Val& p, unsigned nbytes, unsigned w) {
  if (p.e) {
    Node* e = p.e;
    while (e->k == K_ITE) { e = decide(s, e->a) ? e->b : e->c; }
    if (!isConst(e)) { Val v; if (symRead(s, e, nbytes, w, v)) return v; }
    u64 a = isConst(e) ? (u64)e->val : concretizeNode(s, e);
    u64 off; const Obj* o = objAt(s, a, nbytes, false, off); return loadObj(o, off, nbytes, w);
  }
  u64 off; const Obj* o = objAt(s, p.c, nbytes, false, off); return loadObj(o, off, nbytes, w);
}
static void storeMem(State& s, u64 addr, unsigned nbytes, const Val& v, unsigned w) {
  u64 off; objAt(s, addr, nbytes, true, off);
  storeObj(s.mem.getW(addr >> 24), off, nbytes, v, w);
}
static unsigned tw(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isHalfTy()) return 16; if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static bool isAggTy(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned aggN(Type* t) { if (auto* st = dyn_cast<StructType>(t)) return st->getNumElements(); if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
static Type* aggT(Type* t, unsigned i) { if (auto* st = dyn_cast<StructType>(t)) return st->getElementType(i); if (auto* at = dyn_cast<ArrayType>(t)) return at->getElementType(); return cast<VectorType>(t)->getElementType(); }
static u64 aggOff(Type* t, unsigned i) {
  if (auto* st = dyn_cast<StructType>(t)) return DL->getStructLayout(st)->getElementOffset(i);
  if (auto* at = dyn_cast<ArrayType>(t)) return DL->getTypeAllocSize(at->getElementType()) * i;
  return DL->getTypeStoreSize(cast<VectorType>(t)->getElementType()) * i;
}
static Val addPtr(const Val& p, u64 off) { if (!p.e) return Val(p.c + off); if (!off) return p; return Val(mkAdd(p.e, mkConst(off, 64))); }
static Val zeroOf(Type* t) {
  if (!isAggTy(t)) { unsigned w = tw(t); return w > 64 ? Val(mkConst(0, w)) : Val((u64)0); }
  Agg* a = Agg::make(aggN(t)); for (unsigned i = 0; i < a->n; i++) a->v[i] = zeroOf(aggT(t, i)); return Val::agg(a);
}
static Val loadTy(State& s, const Val& p, Type* t) {
  if (isAggTy(t)) {
    unsigned n = aggN(t);
    if (t->isVectorTy() && aggT(t, 0)->isIntegerTy(1)) {
      unsigned nb = (n + 7) / 8; Val raw = loadMem(s, p, nb, nb * 8); Agg* a = Agg::make(n);
      for (unsigned i = 0; i < n; i++) a->v[i] = raw.e ? Val(mkExtract(raw.e, i, 1)) : Val((raw.c >> i) & 1);
      return Val::agg(a);
    }
    Agg* a = Agg::make(n); for (unsigned i = 0; i < n; i++) a->v[i] = loadTy(s, addPtr(p, aggOff(t, i)), aggT(t, i)); return Val::agg(a);
  }
  unsigned w = tw(t); return loadMem(s, p, (unsigned)DL->getTypeStoreSize(t), w);
}
static void storeTy(State& s, u64 p, const Val& v, Type* t) {
  if (isAggTy(t)) {
    unsigned n = aggN(t);
    for (unsigned i = 0; i < n; i++) storeTy(s, p + aggOff(t, i), v.isAgg() ? v.asAgg()->v[i] : zeroOf(aggT(t, i)), aggT(t, i));
    return;
  }
  storeMem(s, p, (unsigned)DL->getTypeStoreSize(t), v, tw(t));
}
static std::string cstr(State& s, u64 a) {
  std::string r; for (int i = 0; i < 4096; i++) { Val v = loadMem(s, Val(a + i), 1, 8); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r;
}
static Node* byteAt(State& s, u64 a) { Val v = loadMem(s, Val(a), 1, 8); return toNode(v, 8); }

// ------------------------------------------------------------------ functions, globals
static std::map<const Function*, CFunc*> g_funcs; static std::map<u64, CFunc*> g_byAddr; static std::map<const GlobalValue*, u64> g_gaddr;
static std::map<std::string, int> g_handlers;
typedef void (*Handler)(State&, CInst&, std::vector<Val>&, CFunc*);
static std::vector<Handler> g_hfn;

static Val constVal(const Constant* c);
static u64 gaddr(const GlobalValue* g) {
  if (auto* al = dyn_cast<GlobalAlias>(g)) { Val v = constVal(al->getAliasee()); return v.c; }
  auto it = g_gaddr.find(g); if (it == g_gaddr.end()) { fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); _exit(3); }
  return it->second;
}
static Val constVal(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) return Val(ci->getZExtValue());
    u128 v = ci->getValue().getRawData()[0] | ((u128)ci->getValue().getRawData()[1] << 64); return Val(mkConst(v, w));
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) return Val(b.getZExtValue()); return Val(mkConst(b.getRawData()[0] | ((u128)b.getRawData()[1] << 64), b.getBitWidth())); }
  if (isa<ConstantPointerNull>(c)) return Val((u64)0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto* g = dyn_cast<GlobalValue>(c)) return Val(gaddr(g));
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { Agg* a = Agg::make(ca->getNumOperands()); for (unsigned i = 0; i < a->n; i++) a->v[i] = constVal(ca->getOperand(i)); return Val::agg(a); }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { Agg* a = Agg::make(cd->getNumElements()); for (unsigned i = 0; i < a->n; i++) a->v[i] = constVal(cd->getElementAsConstant(i)); return Val::agg(a); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* gep = cast<GEPOperator>(ce); if (!gep->accumulateConstantOffset(*DL, off)) break; return Val(constVal(ce->getOperand(0)).c + (u64)off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        Val v = constVal(ce->getOperand(0)); unsigned w = tw(t); if (!v.e && w && w < 64) v.c &= ((u64)1 << w) - 1; return v; }
      case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); v.c &= ((u64)1 << tw(t)) - 1; return v; }
      case Instruction::Add: return Val(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
      case Instruction::Sub: { u64 r = constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c; if (tw(t) < 64) r &= ((u64)1 << tw(t)) - 1; return Val(r); }
      default: break;
    }
  }
  std::string str; raw_string_ostream os(str); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); _exit(3);
}
static void initGlobal(State& s, u64 addr, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;  // memory is zero-filled
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef raw = cd->getRawDataValues(); Obj* o = s.mem.getW(addr >> 24); memcpy(o->data + (addr & 0xFFFFFF), raw.data(), raw.size()); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(s, addr + aggOff(t, i), ca->getOperand(i)); return; }
  storeTy(s, addr, constVal(c), t);
}

static void compile(CFunc* cf) {
  if (cf->compiled) return;
  cf->compiled = true;
  const Function* F = cf->F;
  std::map<const Value*, int> reg; int n = 0;
  for (auto& a : F->args()) reg[&a] = n++;
  std::map<const BasicBlock*, int> bi; int nb = 0;
  for (auto& B : *F) { bi[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  cf->nregs = n; cf->blocks.resize(nb);
  auto opnd = [&](const Value* v) -> Opnd {
    Opnd o; o.reg = -1;
    if (auto* c = dyn_cast<Constant>(v)) { o.cv = constVal(c); return o; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return o;
    o.reg = reg.at(v); return o;
  };
  for (auto& B : *F) {
    CBlock& cb = cf->blocks[bi[&B]]; cb.bb = &B;
    for (auto& I : B) {
      if (auto* ph = dyn_cast<PHINode>(&I)) {
        CBlock::Phi p; p.dst = reg[&I];
        for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) p.in.push_back({bi[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i))});
        cb.phis.push_back(std::move(p)); continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
        switch (ii->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
          case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::pseudoprobe: continue;
          default: break;
        }
      }
      CInst ci; ci.I = &I; ci.op = I.getOpcode(); ci.w = tw(I.getType()); ci.dst = I.getType()->isVoidTy() ? -1 : reg[&I];
      if (I.getNumOperands()) ci.ow = tw(I.getOperand(0)->getType());
      if (auto* cb2 = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb2->args()) ci.ops.push_back(opnd(a.get()));
        ci.ops.push_back(opnd(cb2->getCalledOperand()));
        const Value* cal = cb2->getCalledOperand()->stripPointerCasts();
        if (auto* al = dyn_cast<GlobalAlias>(cal)) cal = al->getAliaseeObject();
        if (auto* cfn = dyn_cast<Function>(cal)) { ci.callee = g_funcs[cfn]; ci.intrin = cfn->isIntrinsic() ? (int)cfn->getIntrinsicID() : -1; }
        if (auto* inv = dyn_cast<InvokeInst>(&I)) ci.succ = {bi[inv->getNormalDest()], bi[inv->getUnwindDest()]};
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        ci.ops.push_back(opnd(g->getPointerOperand()));
        if (!g->getType()->isVectorTy()) {
          MapVector<Value*, APInt> vo; APInt co(64, 0);
          if (!g->collectOffset(*DL, 64, vo, co)) { fprintf(stderr, "gep\n"); _exit(3); }
          ci.off = co.getSExtValue();
          for (auto& kv : vo) { ci.scale.push_back({(u32)ci.ops.size(), kv.second.getSExtValue()}); ci.ops.push_back(opnd(kv.first)); }
          ci.ow = 64;
        }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) ci.ops.push_back(opnd(br->getCondition()));
        for (unsigned i = 0; i < br->getNumSuccessors(); i++) ci.succ.push_back(bi[br->getSuccessor(i)]);
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        ci.ops.push_back(opnd(sw->getCondition())); ci.succ.push_back(bi[sw->getDefaultDest()]);
        for (auto& c : sw->cases()) { ci.ops.push_back(opnd(c.getCaseValue())); ci.succ.push_back(bi[c.getCaseSuccessor()]); }
      } else {
        for (auto& o : I.operands()) ci.ops.push_back(opnd(o.get()));
      }
      if (isa<ICmpInst>(&I)) ci.ow = tw(I.getOperand(0)->getType());
      ci.simple = !isAggTy(I.getType()) && !(I.getNumOperands() && isAggTy(I.getOperand(0)->getType()));
      cb.insts.push_back(std::move(ci));
    }
  }
}
static inline const Val& rd(Frame& f, const Opnd& o) { return o.reg >= 0 ? f.regs[o.reg] : o.cv; }

static void jumpTo(State& s, int target) {
  Frame& f = s.top(); int pred = f.bb; CBlock& b = f.f->blocks[target];
  if (!b.phis.empty()) {
    static std::vector<Val> tmp; tmp.clear();
    for (auto& p : b.phis) { const Opnd* o = nullptr; for (auto& i : p.in) if (i.first == pred) { o = &i.second; break; } tmp.push_back(rd(f, *o)); }
    for (size_t i = 0; i < b.phis.size(); i++) f.regs[b.phis[i].dst] = tmp[i];
  }
  f.bb = target; f.ip = 0;
}
static void finishCall(State& s, CInst& ci, const Val& v) {
  Frame& f = s.top();
  if (ci.dst >= 0) f.regs[ci.dst] = v;
  if (ci.op == Instruction::Invoke) jumpTo(s, ci.succ[0]); else f.ip++;
}
static void pushFrame(State& s, CFunc* cf, const std::vector<Val>& args, const CallBase* cb) {
  compile(cf);
  if (s.stack.size() > 2000) error(s, "stack", "recursion deeper than 2000 frames");
  Frame* f = new Frame; f->f = cf; f->regs.resize(cf->nregs);
  unsigned na = cf->F->arg_size();
  for (unsigned i = 0; i < na && i < args.size(); i++) {
    f->regs[i] = args[i];
    if (cb && cb->isByValArgument(i)) {
      Type* t = cb->getParamByValType(i); u64 sz = DL->getTypeAllocSize(t);
      u64 src = conc(s, args[i]); u64 a = allocMem(s, sz, 1); u64 so; const Obj* o = objAt(s, src, sz, false, so); Obj* d = s.mem.getW(a >> 24);
      memcpy(d->data, o->data + so, sz); if (o->sym) { d->sym = (Node**)calloc(sz + 1, sizeof(Node*)); memcpy(d->sym, o->sym + so, sz * sizeof(Node*)); }
      f->regs[i] = Val(a); f->allocas.push_back(a);
    }
  }
  for (unsigned i = na; i < args.size(); i++) { unsigned w = cb ? tw(cb->getArgOperand(i)->getType()) : 64; f->varargs.push_back({args[i], w ? w : 64}); }
  s.stack.push_back(f);
}
static void popFrame(State& s) {
  Frame* f = s.stack.back();
  for (u64 a : f->allocas) { Obj* o = s.mem.getW(a >> 24); o->alive = 0; if (o->sym) { free(o->sym); o->sym = nullptr; } o->data = (uint8_t*)realloc(o->data, 1); o->size = 0; }
  s.stack.pop_back(); if (--f->ref == 0) delete f;
}

// ------------------------------------------------------------------ exceptions
static u64 tiBaseOff(State& s, u64 ti, u64 target, bool& ok) {  // offset of base `target` in an object of type `ti`
  ok = true; if (ti == target) return 0;
  u64 vp = loadMem(s, Val(ti), 8, 64).c; 
  static u64 vSi = 0, vVmi = 0;
  if (!vSi) for (auto& g : g_gaddr) { if (g.first->getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") vSi = g.second; if (g.first->getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vVmi = g.second; }
  if (vSi && (vp >> 24) == (vSi >> 24)) { return tiBaseOff(s, loadMem(s, Val(ti + 16), 8, 64).c, target, ok); }
  if (vVmi && (vp >> 24) == (vVmi >> 24)) {
    u32 n = loadMem(s, Val(ti + 20), 4, 32).c;
    for (u32 i = 0; i < n; i++) { u64 b = loadMem(s, Val(ti + 24 + 16 * i), 8, 64).c; int64_t fl = (int64_t)loadMem(s, Val(ti + 32 + 16 * i), 8, 64).c; u64 o = tiBaseOff(s, b, target, ok); if (ok) return (u64)(fl >> 8) + o; }
  }
  ok = false; return 0;
}
static std::string tiName(State& s, u64 ti) { u64 p = loadMem(s, Val(ti + 8), 8, 64).c; return cstr(s, p); }
static int tiId(u64 ti) { return (int)(ti >> 24) & 0x7FFFFFFF; }
static ExcInfo* excOf(State& s, u64 obj) { for (auto& e : s.excs) if (e.obj == obj) return &e; return nullptr; }
static void unwind(State& s, u64 obj) {
  ExcInfo* ei = excOf(s, obj); u64 ti = ei ? ei->tinfo : 0;
  // phase 1: is there a handler?
  int found = -1;
  for (int i = (int)s.stack.size() - 1; i >= 0 && found < 0; i--) {
    Frame* f = s.stack[i]; CInst& ci = f->f->blocks[f->bb].insts[f->ip];
    if (ci.op != Instruction::Invoke) continue;
    auto* lp = cast<InvokeInst>(ci.I)->getLandingPadInst();
    for (unsigned k = 0; k < lp->getNumClauses(); k++) {
      if (!lp->isCatch(k)) { found = i; break; }
      u64 ct = constVal(lp->getClause(k)).c; bool ok;
      if (ct == 0) { found = i; break; }
      tiBaseOff(s, ti, ct, ok); if (ok) { found = i; break; }
    }
  }
  if (found < 0) error(s, "exception", "uncaught exception of type " + (ti ? tiName(s, ti) : std::string("?")));
  // phase 2
  while (true) {
    Frame* f = s.stack.back(); CInst& ci = f->f->blocks[f->bb].insts[f->ip];
    if (ci.op == Instruction::Invoke) {
      auto* lp = cast<InvokeInst>(ci.I)->getLandingPadInst();
      bool take = lp->isCleanup();
      for (unsigned k = 0; k < lp->getNumClauses() && !take; k++) {
        if (!lp->isCatch(k)) { take = true; break; }
        u64 ct = constVal(lp->getClause(k)).c; bool ok = true; if (ct) tiBaseOff(s, ti, ct, ok); if (ok) take = true;
      }
      if (take) { s.unwinding = obj; jumpTo(s, ci.succ[1]); return; }
    }
    popFrame(s);
    if (s.stack.empty()) abort();
  }
}

// ------------------------------------------------------------------ handlers (external functions)
#define H(name) static void name(State& s, CInst& ci, std::vector<Val>& a, CFunc* cf)
static void copyBytes(State& s, u64 d, u64 src, u64 n) {
  if (!n) return;
  u64 so, dof; const Obj* o = objAt(s, src, n, false, so); objAt(s, d, n, true, dof);
  std::vector<uint8_t> b(o->data + so, o->data + so + n); std::vector<Node*> sy; bool any = false;
  if (o->sym) { sy.assign(o->sym + so, o->sym + so + n); for (Node* x : sy) if (x) { any = true; break; } }
  Obj* w = s.mem.getW(d >> 24);
  memcpy(w->data + dof, b.data(), n);
  if (any) { if (!w->sym) w->sym = (Node**)calloc(w->size + 1, sizeof(Node*)); memcpy(w->sym + dof, sy.data(), n * sizeof(Node*)); }
  else if (w->sym) memset(w->sym + dof, 0, n * sizeof(Node*));
}
static u64 concLen(State& s, const Val& v) {
  u64 n = conc(s, v);
  return n;
}
H(h_memcpy) { u64 n = concLen(s, a[2]); u64 d = concPtr(s, a[0]), src = concPtr(s, a[1]); copyBytes(s, d, src, n); finishCall(s, ci, Val(d)); }
H(h_memset) {
  u64 n = concLen(s, a[2]); u64 d = concPtr(s, a[0]);
  if (n) {
    u64 off; objAt(s, d, n, true, off); Obj* o = s.mem.getW(d >> 24);
    if (!a[1].e) { memset(o->data + off, (int)a[1].c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(Node*)); }
    else { Node* b = a[1].e->w > 8 ? mkExtract(a[1].e, 0, 8) : a[1].e; for (u64 i = 0; i < n; i++) storeObj(o, off + i, 1, Val(b), 8); }
  }
  finishCall(s, ci, Val(d));
}
H(h_memcmp) {
  u64 n = concLen(s, a[2]); u64 p = concPtr(s, a[0]), q = concPtr(s, a[1]);
  if (n == 0) { finishCall(s, ci, Val((u64)0)); return; }
  u64 po, qo; const Obj* x = objAt(s, p, n, false, po); const Obj* y = objAt(s, q, n, false, qo);
  auto bx = [&](u64 i) { return x->sym && x->sym[po + i] ? x->sym[po + i] : mkConst(x->data[po + i], 8); };
  auto by = [&](u64 i) { return y->sym && y->sym[qo + i] ? y->sym[qo + i] : mkConst(y->data[qo + i], 8); };
  // fast concrete prefix
  u64 i = 0; 
  while (i < n) { Node* u = bx(i); Node* v = by(i); if (u == v) { i++; continue; } if (isConst(u) && isConst(v)) { finishCall(s, ci, Val((u64)(u32)(u->val < v->val ? -1 : 1))); return; } break; }
  if (i == n) { finishCall(s, ci, Val((u64)0)); return; }
  // chunks from i to n
  std::vector<std::pair<Node*, Node*>> chunks;
  while (i < n) {
    Node *A = nullptr, *B = nullptr; u64 k = 0;
    bool stop = false;
    while (i < n && k < 8 && !stop) {
      Node* u = bx(i); Node* v = by(i);
      if (u == v && k == 0) { i++; continue; }
      if (k > 0) {
        // start a new chunk where a fresh big-endian value begins (keeps chunks aligned with encoded integers)
        auto fresh = [](Node* t) { return t->k == K_EXTRACT && t->aux + 8 == t->a->w && t->a->w >= 16; };
        if ((fresh(u) || fresh(v))) break;
      }
      A = A ? mkConcat(A, u) : u; B = B ? mkConcat(B, v) : v; k++; i++;
      if (isConst(u) && isConst(v) && u != v) { stop = true; i = n; }
    }
    if (A && A != B) chunks.push_back({A, B});
  }
  Node* r = mkConst(0, 32);
  for (size_t k = chunks.size(); k-- > 0;) {
    Node* A = chunks[k].first; Node* B = chunks[k].second;
    r = mkIte(mkEq(A, B), r, mkIte(mkBin(K_ULT, A, B), mkConst(maskw(32), 32), mkConst(1, 32)));
  }
  finishCall(s, ci, Val(r));
}
H(h_bcmp) {
  u64 n = concLen(s, a[2]); u64 p = concPtr(s, a[0]), q = concPtr(s, a[1]);
  Node* eq = mkConst(1, 1);
  if (n) {
    u64 po, qo; const Obj* x = objAt(s, p, n, false, po); const Obj* y = objAt(s, q, n, false, qo);
    for (u64 i = 0; i < n;) {
      Node *A = nullptr, *B = nullptr;
      for (int k = 0; k < 8 && i < n; k++, i++) {
        Node* u = x->sym && x->sym[po + i] ? x->sym[po + i] : mkConst(x->data[po + i], 8);
        Node* v = y->sym && y->sym[qo + i] ? y->sym[qo + i] : mkConst(y->data[qo + i], 8);
        A = A ? mkConcat(A, u) : u; B = B ? mkConcat(B, v) : v;
      }
      eq = mkAnd(eq, mkEq(A, B)); if (isFalse(eq)) break;
    }
  }
  finishCall(s, ci, Val(mkIte(eq, mkConst(0, 32), mkConst(1, 32))));
}
H(h_strlen) {
  u64 p = concPtr(s, a[0]); u64 i = 0;
  while (true) { Node* b = byteAt(s, p + i); if (decide(s, mkEq(b, mkConst(0, 8)))) break; i++; }
  finishCall(s, ci, Val(i));
}
H(h_memchr) {
  u64 n = concLen(s, a[2]); u64 p = n ? concPtr(s, a[0]) : 0; Node* c = a[1].e ? mkExtract(a[1].e, 0, 8) : mkConst(a[1].c & 255, 8);
  for (u64 i = 0; i < n; i++) { Node* b = byteAt(s, p + i); if (decide(s, mkEq(b, c))) { finishCall(s, ci, Val(p + i)); return; } }
  finishCall(s, ci, Val((u64)0));
}
static u64 doAlloc(State& s, u64 n, int fill) { if (n >= (1 << 24)) error(s, "memory", "allocation of " + std::to_string(n) + " bytes"); return allocMem(s, n, 0, fill); }
H(h_malloc) { u64 n = concLen(s, a[0]); finishCall(s, ci, Val(doAlloc(s, n, 0xCD))); }
H(h_calloc) { u64 n = conc(s, a[0]), m = conc(s, a[1]); finishCall(s, ci, Val(doAlloc(s, n * m, 0))); }
H(h_alignedalloc) { u64 n = conc(s, a[1]); finishCall(s, ci, Val(doAlloc(s, n, 0xCD))); }
static void doFree(State& s, u64 p) {
  if (!p) return;
  if (p & 0xFFFFFF) error(s, "memory", "free of an interior pointer");
  u64 idx = p >> 24; if (idx >= s.mem.next || !s.mem.get(idx)) error(s, "memory", "free of a wild pointer");
  const Obj* o = s.mem.get(idx); if (o->kind != 0) error(s, "memory", "free of a non-heap pointer"); if (!o->alive) error(s, "memory", "double free");
  Obj* w = s.mem.getW(idx); w->alive = 0; free(w->sym); w->sym = nullptr; w->data = (uint8_t*)realloc(w->data, 1); w->size = 0;
}
H(h_free) { u64 p = concPtr(s, a[0]); doFree(s, p); finishCall(s, ci, Val()); }
H(h_realloc) {
  u64 n = conc(s, a[1]); u64 p = concPtr(s, a[0]); u64 q = doAlloc(s, n, 0xCD);
  if (p) { u64 old = s.mem.get(p >> 24)->size; copyBytes(s, q, p, std::min(old, n)); doFree(s, p); }
  finishCall(s, ci, Val(q));
}
H(h_nop) { finishCall(s, ci, ci.I->getType()->isVoidTy() ? Val() : zeroOf(ci.I->getType())); }
H(h_one) { finishCall(s, ci, Val((u64)1)); }
H(h_abort) { error(s, "abort", std::string(cf->F->getName()) + " called"); }
H(h_assert_fail) { error(s, "abort", "assertion failed: " + cstr(s, a[0].c)); }
H(h_guard_acquire) { Val v = loadMem(s, a[0], 1, 8); u64 r = v.c == 0 ? 1 : 0; finishCall(s, ci, Val(r)); }
H(h_guard_release) { storeMem(s, a[0].c, 1, Val((u64)1), 8); finishCall(s, ci, Val()); }
H(h_alloc_exc) { u64 n = conc(s, a[0]); finishCall(s, ci, Val(allocMem(s, n, 0, 0))); }
H(h_throw) { u64 obj = a[0].c, ti = a[1].c; s.excs.push_back({obj, ti, 0}); unwind(s, obj); }
H(h_rethrow) { if (s.caught.empty()) error(s, "exception", "rethrow without an active exception"); u64 obj = s.caught.back(); s.caught.pop_back(); unwind(s, obj); }
static u64 adjustedPtr(State& s, u64 obj) { return obj; }
H(h_begin_catch) { u64 obj = conc(s, a[0]); s.caught.push_back(obj); finishCall(s, ci, Val(adjustedPtr(s, obj))); }
H(h_end_catch) { if (!s.caught.empty()) s.caught.pop_back(); finishCall(s, ci, Val()); }
H(h_get_exc) { finishCall(s, ci, a[0]); }
H(h_dyncast) {
  u64 p = concPtr(s, a[0]); if (!p) { finishCall(s, ci, Val((u64)0)); return; }
  u64 vp = conc(s, loadMem(s, Val(p), 8, 64)); u64 ti = conc(s, loadMem(s, Val(vp - 8), 8, 64)); int64_t top = (int64_t)conc(s, loadMem(s, Val(vp - 16), 8, 64));
  bool ok; u64 off = tiBaseOff(s, ti, a[2].c, ok);
  finishCall(s, ci, ok ? Val(p + top + off) : Val((u64)0));
}
H(h_thread_atexit) { finishCall(s, ci, Val((u64)0)); }

// symbolic API
static std::map<std::tuple<size_t, std::string, unsigned>, u32> g_inputVars;
static Node* newInput(State& s, const std::string& name, unsigned w, u64 init, const std::string& tag = "") {
  auto key = std::make_tuple(s.inputs.size(), name + tag, w); u32 v; auto it = g_inputVars.find(key);
  extern Node* varNode(uint32_t);
  Node* n;
  if (it == g_inputVars.end()) { n = mkVar(name + "@" + std::to_string(s.inputs.size()), w); v = n->aux; g_inputVars[key] = v; } else { v = it->second; n = varNode(v); }
  s.inputs.push_back(v); if (s.model.size() <= v) s.model.resize(v + 1, 0); s.model[v] = init;
  return n;
}
H(h_sym_var) {
  std::string nm = cstr(s, conc(s, a[0])); unsigned w = (unsigned)conc(s, a[1]);
  Node* n = newInput(s, nm, w, 0); if (w < 64) n = mkZExt(n, 64); finishCall(s, ci, Val(n));
}
H(h_sym_range) {  // (name, bits, lo, hi): unsigned inclusive range
  std::string nm = cstr(s, conc(s, a[0])); unsigned w = (unsigned)conc(s, a[1]); u64 lo = conc(s, a[2]), hi = conc(s, a[3]);
  if (lo > hi) { R.assumed++; endPath(); }
  // the range is part of the variable's identity, so that its interval can be used by the simplifier; the constraints are
  // built before the interval is known (afterwards they would fold to true)
  Node* n = newInput(s, nm, w, lo, "|" + std::to_string(lo) + "|" + std::to_string(hi));
  static std::unordered_map<Node*, std::pair<Node*, Node*>> bounds;
  auto bi = bounds.find(n);
  if (bi == bounds.end()) {
    Node* l = lo > 0 ? mkBin(K_ULE, mkConst(lo, w), n) : nullptr; Node* h = hi < (u64)maskw(w) ? mkBin(K_ULE, n, mkConst(hi, w)) : nullptr;
    bi = bounds.emplace(n, std::make_pair(l, h)).first;
    if (w <= 64 && hi <= (u64)(maskw(w) >> 1)) { n->ivset = true; n->lo = (i128)lo; n->hi = (i128)hi; }
  }
  if (bi->second.first) addPc(s, bi->second.first);
  if (bi->second.second) addPc(s, bi->second.second);
  if (lo == hi) { finishCall(s, ci, Val(lo)); return; }
  if (w < 64) n = mkZExt(n, 64);
  finishCall(s, ci, Val(n));
}
H(h_sym_bytes) {  // (ptr, len, name)
  u64 n = conc(s, a[1]); u64 p = conc(s, a[0]); std::string nm = cstr(s, conc(s, a[2]));
  if (n) {
    u64 off; objAt(s, p, n, true, off);
    for (u64 i = 0; i < n; i++) { Node* b = newInput(s, nm, 8, 0); storeObj(s.mem.getW(p >> 24), off + i, 1, Val(b), 8); }
  }
  finishCall(s, ci, Val());
}
static Node* truth(const Val& v) {
  if (!v.e) return mkConst(v.c != 0, 1);
  if (v.e->w == 1) return v.e;
  return mkNot(mkEq(v.e, mkConst(0, v.e->w)));
}
H(h_sym_thread_new) {
  auto fi = g_byAddr.find(conc(s, a[0])); if (fi == g_byAddr.end()) unsupported(s, "thread entry"); CFunc* tf = fi->second;
  if (s.threads.empty()) { s.threads.resize(1); s.cur = 0; }
  std::vector<Frame*> save; save.swap(s.stack); pushFrame(s, tf, {a[1]}, nullptr); save.swap(s.stack); s.threads.push_back(save);
  finishCall(s, ci, Val((u64)s.threads.size() - 1));
}
H(h_sym_thread_switch) {
  u64 t = conc(s, a[0]); finishCall(s, ci, Val());
  if ((int)t == s.cur || (s.threads.empty() && t == 0)) return;
  if (t >= s.threads.size()) unsupported(s, "switch to a thread that does not exist");
  s.threads[s.cur].swap(s.stack); s.cur = (int)t; s.stack.swap(s.threads[t]);
}
H(h_sym_assume) { assume(s, truth(a[0])); finishCall(s, ci, Val()); }
H(h_sym_assert) { std::string m = cstr(s, conc(s, a[1])); require(s, truth(a[0]), "assert", m); finishCall(s, ci, Val()); }
static std::map<std::string, u32> g_coverId; static std::vector<std::string> g_coverName;
H(h_sym_cover) {
  std::string m = cstr(s, conc(s, a[0])); auto it = g_coverId.find(m); if (it == g_coverId.end()) { it = g_coverId.insert({m, (u32)g_coverName.size()}).first; g_coverName.push_back(m); }
  s.covers.push_back(it->second); finishCall(s, ci, Val());
}
H(h_sym_observe) { std::string m = cstr(s, conc(s, a[0])); s.obs.push_back({m, a[1]}); finishCall(s, ci, Val()); }
H(h_sym_conc) { u64 v = conc(s, a[0]); finishCall(s, ci, Val(v)); }
H(h_sym_conc_bytes) {
  u64 p = conc(s, a[0]), n = conc(s, a[1]);
  if (n) { u64 off; const Obj* o = objAt(s, p, n, true, off); std::vector<u64> v(n);
    for (u64 i = 0; i < n; i++) v[i] = o->sym && o->sym[off + i] ? concretizeNode(s, o->sym[off + i]) : o->data[off + i];
    Obj* w = s.mem.getW(p >> 24); for (u64 i = 0; i < n; i++) storeObj(w, off + i, 1, Val(v[i]), 8); }
  finishCall(s, ci, Val());
}
H(h_sym_fork) { bool b = decide(s, truth(a[0])); finishCall(s, ci, Val((u64)b)); }
H(h_sym_fail) { error(s, "assert", cstr(s, conc(s, a[0]))); }
H(h_sym_stop) { R.assumed++; endPath(); }
H(h_sym_unsupported) { unsupported(s, cstr(s, conc(s, a[0]))); }
H(h_sym_is_symbolic) { finishCall(s, ci, Val((u64)1)); }
H(h_sym_isconc) { finishCall(s, ci, Val((u64)(a[0].e ? 0 : 1))); }
H(h_sym_param) { std::string m = cstr(s, conc(s, a[0])); auto it = o_params.find(m); finishCall(s, ci, it == o_params.end() ? a[1] : Val(it->second)); }
H(h_sym_print) { if (o_verbose) fprintf(stderr, "[%d] %s = %s\n", getpid(), cstr(s, conc(s, a[0])).c_str(), a[1].e ? toStr(a[1].e, 8).c_str() : std::to_string((int64_t)a[1].c).c_str()); finishCall(s, ci, Val()); }
H(h_sym_ite) { Node* c = truth(a[0]); finishCall(s, ci, Val(mkIte(c, toNode(a[1], 64), toNode(a[2], 64)))); }

static void reg(const char* n, Handler h) { g_handlers[n] = g_hfn.size(); g_hfn.push_back(h); }
static void regAll() {
  reg("memcpy", h_memcpy); reg("memmove", h_memcpy); reg("memset", h_memset); reg("memcmp", h_memcmp); reg("bcmp", h_bcmp); reg("strlen", h_strlen); reg("memchr", h_memchr);
  reg("malloc", h_malloc); reg("calloc", h_calloc); reg("realloc", h_realloc); reg("free", h_free); reg("aligned_alloc", h_alignedalloc);
  for (auto n : {"_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) reg(n, h_malloc);
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) reg(n, h_free);
  for (auto n : {"abort", "_ZSt9terminatev", "exit", "_exit", "__cxa_pure_virtual", "__cxa_bad_cast", "__cxa_bad_typeid", "__cxa_throw_bad_array_new_length", "_Unwind_Resume", "quick_exit"}) reg(n, h_abort);
  reg("__assert_fail", h_assert_fail);
  reg("__cxa_guard_acquire", h_guard_acquire); reg("__cxa_guard_release", h_guard_release); reg("__cxa_guard_abort", h_nop);
  reg("__cxa_allocate_exception", h_alloc_exc); reg("__cxa_free_exception", h_nop); reg("__cxa_throw", h_throw); reg("__cxa_rethrow", h_rethrow);
  reg("__cxa_begin_catch", h_begin_catch); reg("__cxa_end_catch", h_end_catch); reg("__cxa_get_exception_ptr", h_get_exc);
  reg("__dynamic_cast", h_dyncast); reg("__cxa_atexit", h_nop); reg("__cxa_thread_atexit", h_thread_atexit); reg("atexit", h_nop);
  for (auto n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_init", "pthread_cond_destroy", "pthread_mutex_trylock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_cancel", "puts", "putchar", "fflush", "sched_yield", "usleep", "sleep"}) reg(n, h_nop);
  reg("pthread_self", h_one); reg("getpid", h_one); reg("gettid", h_one);
  reg("sym_var", h_sym_var); reg("sym_var_range", h_sym_range); reg("sym_bytes", h_sym_bytes); reg("sym_assume", h_sym_assume); reg("sym_assert", h_sym_assert);
  reg("sym_cover", h_sym_cover); reg("sym_observe", h_sym_observe); reg("sym_concretize", h_sym_conc); reg("sym_concretize_bytes", h_sym_conc_bytes); reg("sym_fork", h_sym_fork); reg("sym_fail", h_sym_fail); reg("sym_stop", h_sym_stop);
  reg("sym_thread_new", h_sym_thread_new); reg("sym_thread_switch", h_sym_thread_switch);
  reg("sym_unsupported", h_sym_unsupported); reg("sym_is_symbolic", h_sym_is_symbolic); reg("sym_is_concrete", h_sym_isconc); reg("sym_param", h_sym_param); reg("sym_print", h_sym_print); reg("sym_ite", h_sym_ite);
}

// ------------------------------------------------------------------ scalar operations
static Val binop(State& s, unsigned op, const Val& x, const Val& y, unsigned w) {
  if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
    Node* z = mkEq(toNode(y, w), mkConst(0, w));
    if (isTrue(z) || (!isConst(z) && decide(s, z))) error(s, "arith", "division by zero");
  }
  if (!x.e && !y.e && w <= 64) {
    u64 m = w == 64 ? ~0ull : ((u64)1 << w) - 1, p = x.c & m, q = y.c & m;
    switch (op) {
      case Instruction::Add: return (p + q) & m; case Instruction::Sub: return (p - q) & m; case Instruction::Mul: return (p * q) & m;
      case Instruction::And: return p & q; case Instruction::Or: return p | q; case Instruction::Xor: return p ^ q;
      case Instruction::Shl: return q >= w ? 0 : (p << q) & m; case Instruction::LShr: return q >= w ? 0 : p >> q;
    }
  }
  Kind k;
  switch (op) {
    case Instruction::Add: k = K_ADD; break; case Instruction::Sub: k = K_SUB; break; case Instruction::Mul: k = K_MUL; break;
    case Instruction::UDiv: k = K_UDIV; break; case Instruction::SDiv: k = K_SDIV; break; case Instruction::URem: k = K_UREM; break; case Instruction::SRem: k = K_SREM; break;
    case Instruction::And: k = K_AND; break; case Instruction::Or: k = K_OR; break; case Instruction::Xor: k = K_XOR; break;
    case Instruction::Shl: k = K_SHL; break; case Instruction::LShr: k = K_LSHR; break; case Instruction::AShr: k = K_ASHR; break;
    default: unsupported(s, "binop");
  }
  if (!x.e && !y.e && w <= 64) return Val((u64)foldBin(k, x.c, y.c, w));
  return Val(mkBin(k, toNode(x, w), toNode(y, w)));
}
static Val icmp(CmpInst::Predicate p, const Val& x, const Val& y, unsigned w) {
  if (!x.e && !y.e) {
    int64_t a = (int64_t)sx(x.c, w), b = (int64_t)sx(y.c, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return x.c == y.c; case CmpInst::ICMP_NE: return x.c != y.c;
      case CmpInst::ICMP_ULT: return x.c < y.c; case CmpInst::ICMP_ULE: return x.c <= y.c; case CmpInst::ICMP_UGT: return x.c > y.c; case CmpInst::ICMP_UGE: return x.c >= y.c;
      case CmpInst::ICMP_SLT: return a < b; case CmpInst::ICMP_SLE: return a <= b; case CmpInst::ICMP_SGT: return a > b; case CmpInst::ICMP_SGE: return a >= b;
      default: abort();
    }
  }
  Node* a = toNode(x, w); Node* b = toNode(y, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return Val(mkEq(a, b)); case CmpInst::ICMP_NE: return Val(mkNot(mkEq(a, b)));
    case CmpInst::ICMP_ULT: return Val(mkBin(K_ULT, a, b)); case CmpInst::ICMP_ULE: return Val(mkBin(K_ULE, a, b)); case CmpInst::ICMP_UGT: return Val(mkBin(K_ULT, b, a)); case CmpInst::ICMP_UGE: return Val(mkBin(K_ULE, b, a));
    case CmpInst::ICMP_SLT: return Val(mkBin(K_SLT, a, b)); case CmpInst::ICMP_SLE: return Val(mkBin(K_SLE, a, b)); case CmpInst::ICMP_SGT: return Val(mkBin(K_SLT, b, a)); case CmpInst::ICMP_SGE: return Val(mkBin(K_SLE, b, a));
    default: abort();
  }
}
static Val fcmp(CmpInst::Predicate p, const Val& x, const Val& y, unsigned w) {
  Node* a = toNode(x, w); Node* b = toNode(y, w);
  auto eq = [&]() { return mkFp(K_FOEQ, 1, a, b); }; auto lt = [&]() { return mkFp(K_FOLT, 1, a, b); }; auto gt = [&]() { return mkFp(K_FOLT, 1, b, a); };
  auto le = [&]() { return mkFp(K_FOLE, 1, a, b); }; auto ge = [&]() { return mkFp(K_FOLE, 1, b, a); }; auto un = [&]() { return mkFp(K_FUNO, 1, a, b); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return Val((u64)0); case CmpInst::FCMP_TRUE: return Val((u64)1);
    case CmpInst::FCMP_OEQ: return Val(eq()); case CmpInst::FCMP_OGT: return Val(gt()); case CmpInst::FCMP_OGE: return Val(ge()); case CmpInst::FCMP_OLT: return Val(lt()); case CmpInst::FCMP_OLE: return Val(le());
    case CmpInst::FCMP_ONE: return Val(mkOr(lt(), gt())); case CmpInst::FCMP_ORD: return Val(mkNot(un())); case CmpInst::FCMP_UNO: return Val(un());
    case CmpInst::FCMP_UEQ: return Val(mkOr(un(), eq())); case CmpInst::FCMP_UGT: return Val(mkNot(le())); case CmpInst::FCMP_UGE: return Val(mkNot(lt())); case CmpInst::FCMP_ULT: return Val(mkNot(ge())); case CmpInst::FCMP_ULE: return Val(mkNot(gt())); case CmpInst::FCMP_UNE: return Val(mkNot(eq()));
    default: abort();
  }
}
static Val castop(State& s, unsigned op, const Val& v, unsigned sw, unsigned dw) {
  switch (op) {
    case Instruction::Trunc: if (!v.e) return Val(v.c & (u64)maskw(dw)); return Val(mkExtract(v.e, 0, dw));
    case Instruction::ZExt: if (!v.e && dw <= 64) return v; return Val(mkZExt(toNode(v, sw), dw));
    case Instruction::SExt: if (!v.e && dw <= 64) return Val((u64)sx(v.c, sw) & (u64)maskw(dw)); return Val(mkSExt(toNode(v, sw), dw));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (sw == dw) return v; if (dw < sw) return castop(s, Instruction::Trunc, v, sw, dw); return castop(s, Instruction::ZExt, v, sw, dw);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
    case Instruction::FPExt: case Instruction::FPTrunc: return Val(mkFp(K_FPCVT, dw, toNode(v, sw)));
    case Instruction::SIToFP: return Val(mkFp(K_SITOFP, dw, toNode(v, sw))); case Instruction::UIToFP: return Val(mkFp(K_UITOFP, dw, toNode(v, sw)));
    case Instruction::FPToSI: return Val(mkFp(K_FPTOSI, dw, toNode(v, sw))); case Instruction::FPToUI: return Val(mkFp(K_FPTOUI, dw, toNode(v, sw)));
  }
  unsupported(s, "cast");
}
static Val selectVal(State& s, const Val& c, const Val& x, const Val& y, Type* t) {
  if (!c.e) return (c.c & 1) ? x : y;
  if (isAggTy(t)) { Agg* a = Agg::make(aggN(t)); for (unsigned i = 0; i < a->n; i++) a->v[i] = selectVal(s, c, x.asAgg()->v[i], y.asAgg()->v[i], aggT(t, i)); return Val::agg(a); }
  if (t->isPointerTy()) return decide(s, c.e) ? x : y;
  unsigned w = tw(t); return Val(mkIte(c.e, toNode(x, w), toNode(y, w)));
}
static Val fbin(State& s, unsigned op, const Val& x, const Val& y, unsigned w) {
  Kind k; switch (op) { case Instruction::FAdd: k = K_FADD; break; case Instruction::FSub: k = K_FSUB; break; case Instruction::FMul: k = K_FMUL; break; case Instruction::FDiv: k = K_FDIV; break; default: unsupported(s, "frem"); }
  return Val(mkFp(k, w, toNode(x, w), toNode(y, w)));
}
typedef std::function<Val(const Val&, const Val&, unsigned i)> LaneFn;
static Val lanes(const Val& x, const Val& y, unsigned n, const LaneFn& f) {
  Agg* a = Agg::make(n); for (unsigned i = 0; i < n; i++) a->v[i] = f(x.asAgg()->v[i], y.isAgg() ? y.asAgg()->v[i] : y, i); return Val::agg(a);
}
// bitcast between vectors / scalars
static Val bitcastAny(State& s, const Val& v, Type* st, Type* dt) {
  if (!isAggTy(st) && !isAggTy(dt)) return v;
  unsigned total = DL->getTypeSizeInBits(st);
  std::vector<Node*> bits;  // pieces low to high
  unsigned sn = isAggTy(st) ? aggN(st) : 1, sw = total / sn, dn = isAggTy(dt) ? aggN(dt) : 1, dw = total / dn;
  auto src = [&](unsigned i) { return toNode(isAggTy(st) ? v.asAgg()->v[i] : v, sw); };
  auto getBits = [&](unsigned lo, unsigned w) { Node* r = nullptr; unsigned p = lo; while (p < lo + w) { unsigned i = p / sw, o = p % sw, k = std::min(sw - o, lo + w - p); Node* x = mkExtract(src(i), o, k); r = r ? mkConcat(x, r) : x; p += k; } return r; };
  if (!isAggTy(dt)) return Val(getBits(0, dw));
  Agg* a = Agg::make(dn); for (unsigned i = 0; i < dn; i++) a->v[i] = Val(getBits(i * dw, dw)); return Val::agg(a);
}
static Node* nCtpop(Node* x) { unsigned w = x->w; Node* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(x, i, 1), w)); return r; }
static Node* nCtlz(Node* x) { unsigned w = x->w; Node* r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); return r; }
static Node* nCttz(Node* x) { unsigned w = x->w; Node* r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); return r; }
static Node* nBswap(Node* x) { Node* r = nullptr; for (unsigned i = 0; i < x->w / 8; i++) { Node* b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; } return r; }

static Val scalarIntrin(State& s, unsigned id, std::vector<Val>& a, unsigned w, Type* t) {
  auto N = [&](int i) { return toNode(a[i], w); };
  switch (id) {
    case Intrinsic::umin: return Val(mkIte(mkBin(K_ULT, N(0), N(1)), N(0), N(1)));
    case Intrinsic::umax: return Val(mkIte(mkBin(K_ULT, N(0), N(1)), N(1), N(0)));
    case Intrinsic::smin: return Val(mkIte(mkBin(K_SLT, N(0), N(1)), N(0), N(1)));
    case Intrinsic::smax: return Val(mkIte(mkBin(K_SLT, N(0), N(1)), N(1), N(0)));
    case Intrinsic::abs: return Val(mkIte(mkBin(K_SLT, N(0), mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), N(0)), N(0)));
    case Intrinsic::ctpop: return Val(nCtpop(N(0))); case Intrinsic::ctlz: return Val(nCtlz(N(0))); case Intrinsic::cttz: return Val(nCttz(N(0)));
    case Intrinsic::bswap: return Val(nBswap(N(0)));
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Node* sh = mkBin(K_UREM, N(2), mkConst(w, w)); Node* z = mkEq(sh, mkConst(0, w)); Node* inv = mkBin(K_SUB, mkConst(w, w), sh);
      if (id == Intrinsic::fshl) return Val(mkIte(z, N(0), mkOr(mkBin(K_SHL, N(0), sh), mkBin(K_LSHR, N(1), inv))));
      return Val(mkIte(z, N(1), mkOr(mkBin(K_SHL, N(0), inv), mkBin(K_LSHR, N(1), sh))));
    }
    case Intrinsic::uadd_sat: { Node* r = mkAdd(N(0), N(1)); return Val(mkIte(mkBin(K_ULT, r, N(0)), mkConst(maskw(w), w), r)); }
    case Intrinsic::usub_sat: return Val(mkIte(mkBin(K_ULT, N(0), N(1)), mkConst(0, w), mkBin(K_SUB, N(0), N(1))));
    case Intrinsic::fabs: return Val(mkFp(K_FABS, w, N(0))); case Intrinsic::sqrt: return Val(mkFp(K_FSQRT, w, N(0)));
    case Intrinsic::fma: return Val(mkFp(K_FFMA, w, N(0), N(1), N(2)));
    case Intrinsic::fmuladd: return Val(mkFp(K_FADD, w, mkFp(K_FMUL, w, N(0), N(1)), N(2)));
    case Intrinsic::minnum: return Val(mkIte(mkFp(K_FOLT, 1, N(0), N(1)), N(0), N(1)));
    case Intrinsic::maxnum: return Val(mkIte(mkFp(K_FOLT, 1, N(0), N(1)), N(1), N(0)));
    default: break;
  }
  if (!a.empty() && !a[0].e && w == 64) {  // concrete double maths
    double d; memcpy(&d, &a[0].c, 8); double r; bool ok = true;
    switch (id) { case Intrinsic::floor: r = __builtin_floor(d); break; case Intrinsic::ceil: r = __builtin_ceil(d); break; case Intrinsic::trunc: r = __builtin_trunc(d); break; case Intrinsic::round: r = __builtin_round(d); break; case Intrinsic::log2: r = __builtin_log2(d); break; case Intrinsic::log: r = __builtin_log(d); break; case Intrinsic::exp: r = __builtin_exp(d); break; default: ok = false; }
    if (ok) { u64 o; memcpy(&o, &r, 8); return Val(o); }
  }
  unsupported(s, std::string("intrinsic ") + Intrinsic::getBaseName(id).str());
}
static Val ovf(State& s, unsigned id, Node* a, Node* b) {
  unsigned w = a->w; Agg* r = Agg::make(2); Node* v; Node* o;
  auto ext = [&](Node* n, bool sg, unsigned nw) { return sg ? mkSExt(n, nw) : mkZExt(n, nw); };
  bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
  Kind k = id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow ? K_ADD : id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow ? K_SUB : K_MUL;
  v = mkBin(k, a, b);
  if (k == K_ADD && !sg) o = mkBin(K_ULT, v, a);
  else if (k == K_SUB && !sg) o = mkBin(K_ULT, a, b);
  else { unsigned nw = k == K_MUL ? 2 * w : w + 1; if (nw > 128) unsupported(s, "wide overflow"); Node* full = mkBin(k, ext(a, sg, nw), ext(b, sg, nw)); o = mkNot(mkEq(full, ext(v, sg, nw))); }
  r->v[0] = Val(v); r->v[1] = Val(o); return Val::agg(r);
}
static void doIntrinsic(State& s, CInst& ci, std::vector<Val>& a) {
  unsigned id = ci.intrin; const CallBase* cb = cast<CallBase>(ci.I);
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: h_memcpy(s, ci, a, nullptr); return;
    case Intrinsic::memset: case Intrinsic::memset_inline: h_memset(s, ci, a, nullptr); return;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::expect_with_probability: finishCall(s, ci, a[0]); return;
    case Intrinsic::objectsize: finishCall(s, ci, Val(~0ull)); return;
    case Intrinsic::is_constant: finishCall(s, ci, Val((u64)0)); return;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: error(s, "abort", "trap");
    case Intrinsic::eh_typeid_for: finishCall(s, ci, Val((u64)(u32)tiId(a[0].c))); return;
    case Intrinsic::stacksave: finishCall(s, ci, Val((u64)0)); return;
    case Intrinsic::vaend: finishCall(s, ci, Val()); return;
    case Intrinsic::vacopy: copyBytes(s, a[0].c, a[1].c, 24); finishCall(s, ci, Val()); return;
    case Intrinsic::vastart: {
      Frame& f = s.top(); u64 area = allocMem(s, f.varargs.size() * 8 + 8, 1, 0); f.allocas.push_back(area);
      for (size_t i = 0; i < f.varargs.size(); i++) { Val v = f.varargs[i].first; if (v.e && v.e->w < 64) v = Val(mkZExt(v.e, 64)); storeMem(s, area + 8 * i, 8, v, 64); }
      u64 ap = a[0].c; storeMem(s, ap, 4, Val((u64)48), 32); storeMem(s, ap + 4, 4, Val((u64)176), 32); storeMem(s, ap + 8, 8, Val(area), 64); storeMem(s, ap + 16, 8, Val((u64)0), 64);
      finishCall(s, ci, Val()); return;
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      unsigned w = tw(cb->getArgOperand(0)->getType()); finishCall(s, ci, ovf(s, id, toNode(a[0], w), toNode(a[1], w))); return; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
      Agg* g = a[0].asAgg(); unsigned w = ci.w; Node* r = toNode(g->v[0], w);
      for (unsigned i = 1; i < g->n; i++) { Node* x = toNode(g->v[i], w);
        switch (id) { case Intrinsic::vector_reduce_add: r = mkAdd(r, x); break; case Intrinsic::vector_reduce_and: r = mkAnd(r, x); break; case Intrinsic::vector_reduce_or: r = mkOr(r, x); break; case Intrinsic::vector_reduce_xor: r = mkBin(K_XOR, r, x); break; case Intrinsic::vector_reduce_mul: r = mkBin(K_MUL, r, x); break;
          case Intrinsic::vector_reduce_umax: r = mkIte(mkBin(K_ULT, r, x), x, r); break; default: r = mkIte(mkBin(K_ULT, r, x), r, x); } }
      finishCall(s, ci, Val(r)); return;
    }
    case Intrinsic::vector_reduce_fadd: { Agg* g = a[1].asAgg(); unsigned w = ci.w; Node* r = toNode(a[0], w); for (unsigned i = 0; i < g->n; i++) r = mkFp(K_FADD, w, r, toNode(g->v[i], w)); finishCall(s, ci, Val(r)); return; }
    default: break;
  }
  Type* t = ci.I->getType();
  if (t->isVectorTy()) {
    unsigned n = aggN(t), w = tw(aggT(t, 0)); Agg* r = Agg::make(n);
    for (unsigned i = 0; i < n; i++) { std::vector<Val> b; for (size_t k = 0; k + 1 <= a.size(); k++) b.push_back(a[k].isAgg() ? a[k].asAgg()->v[i] : a[k]); r->v[i] = scalarIntrin(s, id, b, w, aggT(t, 0)); }
    finishCall(s, ci, Val::agg(r)); return;
  }
  finishCall(s, ci, scalarIntrin(s, id, a, ci.w, t));
}

static void doCall(State& s, CInst& ci) {
  Frame& f = s.top();
  const CallBase* cb = cast<CallBase>(ci.I);
  std::vector<Val> args; args.reserve(ci.ops.size());
  for (size_t i = 0; i + 1 < ci.ops.size(); i++) args.push_back(rd(f, ci.ops[i]));
  CFunc* cf = ci.callee;
  if (!cf) {
    if (cb->isInlineAsm()) { 
      if (ci.I->getType()->isVoidTy()) { finishCall(s, ci, Val()); return; }
      unsupported(s, "inline asm"); }
    u64 p = concPtr(s, rd(f, ci.ops.back()));
    auto it = g_byAddr.find(p);
    if (it == g_byAddr.end()) error(s, "memory", "call through an invalid function pointer");
    cf = it->second;
  }
  if (ci.intrin > 0) { doIntrinsic(s, ci, args); return; }
  if (cf->handler >= 0) { g_hfn[cf->handler](s, ci, args, cf); return; }
  if (cf->F->isDeclaration()) unsupported(s, "external function " + cf->F->getName().str());
  pushFrame(s, cf, args, cb);
}

static Val extractPath(const Val& v, ArrayRef<unsigned> idx) { Val r = v; for (unsigned i : idx) r = r.asAgg()->v[i]; return r; }
static Val insertPath(const Val& v, ArrayRef<unsigned> idx, const Val& x) {
  if (idx.empty()) return x;
  Agg* o = v.asAgg(); Agg* n = Agg::make(o->n); for (unsigned i = 0; i < o->n; i++) n->v[i] = o->v[i];
  n->v[idx[0]] = insertPath(o->v[idx[0]], idx.slice(1), x); return Val::agg(n);
}

static void step(State& s) {
  Frame& f = s.top();
  CBlock& b = f.f->blocks[f.bb]; CInst& ci = b.insts[f.ip]; ci.exec = 1; s.steps++; R.steps++;
  const Instruction* I = ci.I;
#define SET(v) do { Val _v = (v); f.regs[ci.dst] = _v; f.ip++; return; } while (0)
  switch (ci.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if (ci.simple) SET(binop(s, ci.op, rd(f, ci.ops[0]), rd(f, ci.ops[1]), ci.w));
      unsigned w = tw(aggT(I->getType(), 0)); SET(lanes(rd(f, ci.ops[0]), rd(f, ci.ops[1]), aggN(I->getType()), [&](const Val& x, const Val& y, unsigned) { return binop(s, ci.op, x, y, w); }));
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      if (ci.simple) SET(fbin(s, ci.op, rd(f, ci.ops[0]), rd(f, ci.ops[1]), ci.w));
      unsigned w = tw(aggT(I->getType(), 0)); SET(lanes(rd(f, ci.ops[0]), rd(f, ci.ops[1]), aggN(I->getType()), [&](const Val& x, const Val& y, unsigned) { return fbin(s, ci.op, x, y, w); }));
    }
    case Instruction::FNeg: {
      if (ci.simple) SET(Val(mkFp(K_FNEG, ci.w, toNode(rd(f, ci.ops[0]), ci.w))));
      unsigned w = tw(aggT(I->getType(), 0)); Val x = rd(f, ci.ops[0]); SET(lanes(x, x, aggN(I->getType()), [&](const Val& x, const Val&, unsigned) { return Val(mkFp(K_FNEG, w, toNode(x, w))); }));
    }
    case Instruction::ICmp: {
      auto p = cast<ICmpInst>(I)->getPredicate();
      if (ci.simple) SET(icmp(p, rd(f, ci.ops[0]), rd(f, ci.ops[1]), ci.ow));
      unsigned w = tw(aggT(I->getOperand(0)->getType(), 0)); SET(lanes(rd(f, ci.ops[0]), rd(f, ci.ops[1]), aggN(I->getType()), [&](const Val& x, const Val& y, unsigned) { return icmp(p, x, y, w); }));
    }
    case Instruction::FCmp: {
      auto p = cast<FCmpInst>(I)->getPredicate();
      if (ci.simple) SET(fcmp(p, rd(f, ci.ops[0]), rd(f, ci.ops[1]), ci.ow));
      unsigned w = tw(aggT(I->getOperand(0)->getType(), 0)); SET(lanes(rd(f, ci.ops[0]), rd(f, ci.ops[1]), aggN(I->getType()), [&](const Val& x, const Val& y, unsigned) { return fcmp(p, x, y, w); }));
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::AddrSpaceCast: {
      if (ci.simple) SET(castop(s, ci.op, rd(f, ci.ops[0]), ci.ow, ci.w));
      unsigned sw = tw(aggT(I->getOperand(0)->getType(), 0)), dw = tw(aggT(I->getType(), 0)); Val x = rd(f, ci.ops[0]);
      SET(lanes(x, x, aggN(I->getType()), [&](const Val& x, const Val&, unsigned) { return castop(s, ci.op, x, sw, dw); }));
    }
    case Instruction::BitCast: SET(bitcastAny(s, rd(f, ci.ops[0]), I->getOperand(0)->getType(), I->getType()));
    case Instruction::Freeze: SET(rd(f, ci.ops[0]));
    case Instruction::Select: {
      Val c = rd(f, ci.ops[0]); Val x = rd(f, ci.ops[1]), y = rd(f, ci.ops[2]); Type* t = I->getType();
      if (c.isAgg()) { Type* et = aggT(t, 0); Agg* r = Agg::make(aggN(t)); for (unsigned i = 0; i < r->n; i++) r->v[i] = selectVal(s, c.asAgg()->v[i], x.asAgg()->v[i], y.asAgg()->v[i], et); SET(Val::agg(r)); }
      SET(selectVal(s, c, x, y, t));
    }
    case Instruction::Alloca: {
      auto* al = cast<AllocaInst>(I); u64 n = conc(s, rd(f, ci.ops[0])); u64 sz = DL->getTypeAllocSize(al->getAllocatedType()) * n;
      u64 a = allocMem(s, sz, 1); f.allocas.push_back(a); SET(Val(a));
    }
    case Instruction::Load: {
      if (ci.simple) { unsigned nb = (ci.w + 7) / 8; if (ci.w == 80) nb = 10; SET(loadMem(s, rd(f, ci.ops[0]), nb, ci.w)); }
      SET(loadTy(s, rd(f, ci.ops[0]), I->getType()));
    }
    case Instruction::Store: {
      u64 p = concPtr(s, rd(f, ci.ops[1]));
      storeTy(s, p, rd(f, ci.ops[0]), I->getOperand(0)->getType()); f.ip++; return;
    }
    case Instruction::GetElementPtr: {
      if (I->getType()->isVectorTy()) unsupported(s, "vector gep");
      Val p = rd(f, ci.ops[0]); u64 c = ci.off; Node* e = p.e; if (!e) c += p.c;
      for (auto& sc : ci.scale) {
        const Val& ix = rd(f, ci.ops[sc.first]);
        const Value* ov = nullptr; (void)ov;
        if (!ix.e) { c += ix.c * (u64)sc.second; }
        else { Node* n = ix.e; if (n->w < 64) n = mkSExt(n, 64); Node* t = mkBin(K_MUL, n, mkConst((u64)sc.second, 64)); e = e ? mkAdd(e, t) : t; }
      }
      if (!e) SET(Val(c));
      SET(Val(c ? mkAdd(e, mkConst(c, 64)) : e));
    }
    case Instruction::Br: {
      if (ci.succ.size() == 1) { jumpTo(s, ci.succ[0]); return; }
      Val c = rd(f, ci.ops[0]); bool t = c.e ? decide(s, c.e) : (c.c & 1); jumpTo(s, ci.succ[t ? 0 : 1]); return;
    }
    case Instruction::Switch: {
      Val c = rd(f, ci.ops[0]);
      if (!c.e) { for (size_t i = 1; i < ci.ops.size(); i++) if (ci.ops[i].cv.c == c.c) { jumpTo(s, ci.succ[i]); return; } jumpTo(s, ci.succ[0]); return; }
      // group cases with the same target
      std::vector<int> order; std::map<int, Node*> cond;
      for (size_t i = 1; i < ci.ops.size(); i++) { Node* e = mkEq(c.e, mkConst(ci.ops[i].cv.c, c.e->w)); auto it = cond.find(ci.succ[i]); if (it == cond.end()) { cond[ci.succ[i]] = e; order.push_back(ci.succ[i]); } else it->second = mkOr(it->second, e); }
      for (int tgt : order) { if (tgt == ci.succ[0]) continue; if (decide(s, cond[tgt])) { jumpTo(s, tgt); return; } }
      jumpTo(s, ci.succ[0]); return;
    }
    case Instruction::Ret: {
      Val v; if (!ci.ops.empty()) v = rd(f, ci.ops[0]);
      popFrame(s);
      if (s.stack.empty()) return;
      Frame& g = s.top(); finishCall(s, g.f->blocks[g.bb].insts[g.ip], v); return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(s, ci); return;
    case Instruction::Unreachable: error(s, "ub", "unreachable code reached (undefined behaviour)");
    case Instruction::LandingPad: {
      auto* lp = cast<LandingPadInst>(I); u64 obj = s.unwinding; ExcInfo* ei = excOf(s, obj); u64 ti = ei ? ei->tinfo : 0; u64 sel = 0;
      for (unsigned k = 0; k < lp->getNumClauses(); k++) {
        if (!lp->isCatch(k)) continue;
        u64 ct = constVal(lp->getClause(k)).c; bool ok = true; if (ct) tiBaseOff(s, ti, ct, ok); if (ok) { sel = (u32)tiId(ct); break; }
      }
      Agg* a = Agg::make(2); a->v[0] = Val(obj); a->v[1] = Val(sel); SET(Val::agg(a));
    }
    case Instruction::Resume: { u64 obj = conc(s, rd(f, ci.ops[0]).asAgg()->v[0]); popFrame(s); unwind(s, obj); return; }
    case Instruction::ExtractValue: SET(extractPath(rd(f, ci.ops[0]), cast<ExtractValueInst>(I)->getIndices()));
    case Instruction::InsertValue: SET(insertPath(rd(f, ci.ops[0]), cast<InsertValueInst>(I)->getIndices(), rd(f, ci.ops[1])));
    case Instruction::ExtractElement: { u64 i = conc(s, rd(f, ci.ops[1])); SET(rd(f, ci.ops[0]).asAgg()->v[i]); }
    case Instruction::InsertElement: { u64 i = conc(s, rd(f, ci.ops[2])); unsigned ix = (unsigned)i; SET(insertPath(rd(f, ci.ops[0]), ArrayRef<unsigned>(&ix, 1), rd(f, ci.ops[1]))); }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I); Val x = rd(f, ci.ops[0]), y = rd(f, ci.ops[1]); unsigned n = aggN(I->getType()), m = x.asAgg()->n; Agg* r = Agg::make(n);
      for (unsigned i = 0; i < n; i++) { int k = sv->getMaskValue(i); r->v[i] = k < 0 ? zeroOf(aggT(I->getType(), 0)) : (unsigned)k < m ? x.asAgg()->v[k] : y.asAgg()->v[k - m]; }
      SET(Val::agg(r));
    }
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(I); u64 p = concPtr(s, rd(f, ci.ops[0])); unsigned w = ci.w, nb = (w + 7) / 8; Val o = loadMem(s, Val(p), nb, w); Val v = rd(f, ci.ops[1]); Val n;
      Node *on = toNode(o, w), *vn = toNode(v, w);
      switch (rm->getOperation()) {
        case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = Val(mkAdd(on, vn)); break; case AtomicRMWInst::Sub: n = Val(mkBin(K_SUB, on, vn)); break; case AtomicRMWInst::And: n = Val(mkAnd(on, vn)); break; case AtomicRMWInst::Or: n = Val(mkOr(on, vn)); break; case AtomicRMWInst::Xor: n = Val(mkBin(K_XOR, on, vn)); break;
        default: unsupported(s, "atomicrmw");
      }
      storeMem(s, p, nb, n, w); SET(o);
    }
    case Instruction::AtomicCmpXchg: {
      u64 p = concPtr(s, rd(f, ci.ops[0])); unsigned w = tw(I->getOperand(1)->getType()), nb = (w + 7) / 8; Val o = loadMem(s, Val(p), nb, w); Node* e = mkEq(toNode(o, w), toNode(rd(f, ci.ops[1]), w));
      bool ok = decide(s, e); if (ok) storeMem(s, p, nb, rd(f, ci.ops[2]), w);
      Agg* a = Agg::make(2); a->v[0] = o; a->v[1] = Val((u64)ok); SET(Val::agg(a));
    }
    default: unsupported(s, std::string("instruction ") + I->getOpcodeName());
  }
}

// ------------------------------------------------------------------ driver
static std::vector<CFunc*> g_entries;
static State* setup() {
  State* s = new State;
  cur = s;
  // addresses
  for (auto& G : M->globals()) {
    u64 sz = G.isDeclaration() ? 4096 : (u64)DL->getTypeAllocSize(G.getValueType()); if (!sz) sz = 1;
    if (sz >= (1 << 24)) { fprintf(stderr, "global too large: %s\n", G.getName().str().c_str()); sz = (1 << 24) - 16; }
    g_gaddr[&G] = allocMem(*s, sz, 2, 0);
  }
  for (auto& F : *M) {
    u64 a = allocMem(*s, 1, 3, 0); g_gaddr[&F] = a; CFunc* cf = new CFunc; cf->F = &F; cf->addr = a; g_funcs[&F] = cf; g_byAddr[a] = cf;
    if (F.isDeclaration() || F.getName().startswith("sym_")) { auto it = g_handlers.find(F.getName().str()); if (it != g_handlers.end()) cf->handler = it->second; }
  }
  for (auto& G : M->globals()) if (!G.isDeclaration() && G.hasInitializer() && G.getName() != "llvm.global_ctors" && G.getName() != "llvm.used" && G.getName() != "llvm.compiler.used" && G.getName() != "llvm.global_dtors") initGlobal(*s, g_gaddr[&G], G.getInitializer());
  for (auto& G : M->globals()) if (G.isConstant()) s->mem.getW(g_gaddr[&G] >> 24)->ro = 1;
  // external scalars with a known value
  for (auto& G : M->globals()) if (G.isDeclaration() && G.getName() == "__libc_single_threaded") s->mem.getW(g_gaddr[&G] >> 24)->data[0] = 1;
  std::vector<std::pair<unsigned, CFunc*>> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : ca->operands()) {
    auto* st = cast<ConstantStruct>(o); ctors.push_back({(unsigned)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), g_funcs[cast<Function>(st->getOperand(1)->stripPointerCasts())]});
  }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& c : ctors) g_entries.push_back(c.second);
  Function* E = M->getFunction(o_entry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", o_entry.c_str()); _exit(3); }
  g_entries.push_back(g_funcs[E]);
  return s;
}
static void writeResults(const std::string& path) {
  R.ss = g_ss;
  FILE* fp = fopen(path.c_str(), "w"); if (!fp) _exit(3);
  auto N = [&](const char* k, double v) { fprintf(fp, "N\t%s\t%.6f\n", k, v); };
  N("paths", R.paths); N("completed", R.completed); N("assumed", R.assumed); N("errors", R.errors); N("steps", R.steps); N("forks", R.forks); N("asserts", R.asserts); N("assertsSym", R.assertsSym); N("branchesSym", R.branchesSym);
  N("queries", g_ss.queries); N("cacheHits", g_ss.cacheHits); N("sat", g_ss.sat); N("unsat", g_ss.unsat); N("unknown", g_ss.unknown); N("time", g_ss.time); fprintf(fp, "X\tmaxq\t%.6f\n", g_ss.maxq);
  for (auto& p : R.incomplete) fprintf(fp, "I\t%s\t%lu\n", p.first.c_str(), p.second);
  for (auto& p : R.violations) fprintf(fp, "V\t%s\t%s\n", jesc(p.first).c_str(), p.second.c_str());
  for (auto& p : R.covers) fprintf(fp, "C\t%s\t%lu\n", p.first.c_str(), p.second);
  for (auto& p : R.samples) fprintf(fp, "S\t%s\n", p.c_str());
  for (auto& kv : g_funcs) if (kv.second->compiled) for (auto& b : kv.second->blocks) for (auto& i : b.insts) if (i.exec) {
    for (const DILocation* d = i.I->getDebugLoc().get(); d; d = d->getInlinedAt()) {
      auto* sp = d->getScope()->getSubprogram(); if (!sp) continue; std::string file = (sp->getDirectory().str().empty() || sp->getFilename().startswith("/") ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str();
      std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str();
      if (file.compare(0, o_root.size(), o_root) == 0) { R.funcs.insert(file + ":" + nm); if (o_lines) R.lines.insert(file + ":" + std::to_string(d->getLine())); }
    }
  }
  for (auto& f : R.funcs) fprintf(fp, "F\t%s\n", f.c_str());
  for (auto& f : R.lines) fprintf(fp, "L\t%s\n", f.c_str());
  fclose(fp);
}
static std::vector<pid_t> g_children;
static bool g_root = true;
static void resetForChild() {
  R = Results(); g_ss = SolverStats(); g_children.clear(); g_root = false;
  for (auto& kv : g_funcs) for (auto& b : kv.second->blocks) for (auto& i : b.insts) i.exec = 0;
}
static void maybeShare() {
  if (o_workers <= 1 || work.size() < 4) return;
  if (g_sh->active >= o_workers) return;
  if (__sync_add_and_fetch(&g_sh->active, 1) > o_workers) { __sync_sub_and_fetch(&g_sh->active, 1); return; }
  // give away every other state
  std::vector<State*> mine, theirs; for (size_t i = 0; i < work.size(); i++) (i % 2 ? mine : theirs).push_back(work[i]);
  pid_t p = fork();
  if (p < 0) { __sync_sub_and_fetch(&g_sh->active, 1); return; }
  if (p == 0) { resetForChild(); for (State* x : mine) (void)x; work = theirs; }
  else { g_children.push_back(p); for (State* x : theirs) delete x; work = mine; }
}
static void endOfPath(State* s) {
  R.paths++; R.completed++; __sync_add_and_fetch(&g_sh->paths, 1);
  std::set<u32> seen; for (u32 c : s->covers) if (seen.insert(c).second) R.covers[g_coverName[c]]++;
  u64 h = (R.completed * 2654435761u + (u64)getpid() * 40503u * o_seed) & 0xFFFF;
  if (R.samples.size() < o_samples && (R.completed <= 2 || h < 4096 )) R.samples.push_back("{\"inputs\":" + inputsJson(*s, s->model) + ",\"obs\":" + obsJson(*s, s->model) + "}");
}
static u64 memMB() { static long pg = sysconf(_SC_PAGESIZE); FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0; long a, b; int r = fscanf(f, "%ld %ld", &a, &b); fclose(f); return r == 2 ? (u64)b * pg >> 20 : 0; }
static u64 o_maxMem = 3500;
static void runAll() {
  u64 tick = 0;
  while (!work.empty()) {
    if (g_sh->stop) break;
    State* s;
    if (o_bfs) { s = work.front(); work.erase(work.begin()); } else { s = work.back(); work.pop_back(); }
    if (g_root || (++tick & 7) == 0) maybeShare();
    else maybeShare();
    bool alive = true;
    try {
      while (alive) {
        if (s->stack.empty()) {
          if (s->nextEntry >= (int)g_entries.size()) { endOfPath(s); break; }
          CFunc* cf = g_entries[s->nextEntry++]; pushFrame(*s, cf, {}, nullptr); 
        }
        step(*s);
        if ((s->steps & 0x3FFF) == 0) {
          if (s->steps > o_maxSteps) { R.incomplete["path longer than the step limit at " + traceStr(*s).substr(0, 160)]++; R.paths++; break; }
          if (now() > o_maxTime) { R.incomplete["time limit"]++; g_sh->stop = 2; break; }
          if (g_sh->stop) break;
          if (work.size() >= 4) maybeShare();
          if ((s->steps & 0xFFFF) == 0 && memMB() > o_maxMem) { R.incomplete["memory limit"]++; g_sh->stop = 2; break; }
        }
      }
    } catch (PathEnd&) { R.paths++; 
      // covers reached on paths that end early (assumptions, errors) are still witnesses
      std::set<u32> seen; for (u32 c : s->covers) if (seen.insert(c).second) R.covers[g_coverName[c]]++;
    }
    delete s;
    if (now() > o_maxTime && !work.empty()) { R.incomplete["time limit"]++; g_sh->stop = 2; }
  }
  if (g_sh->stop == 2 && !work.empty()) R.incomplete["states left unexplored"] += work.size();
}
int main(int argc, char** argv) {
  std::string in;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") o_out = nx(); else if (a == "--entry") o_entry = nx(); else if (a == "--tmp") o_tmp = nx(); else if (a == "--time") o_maxTime = atof(nx().c_str());
    else if (a == "--steps") o_maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "-j") o_workers = atoi(nx().c_str()); else if (a == "--all") o_all = true; else if (a == "-v") o_verbose = 1;
    else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); o_params[p.substr(0, e)] = strtoull(p.c_str() + e + 1, 0, 10); } else if (a == "--known") o_known.push_back(nx()); else if (a == "--samples") o_samples = atoi(nx().c_str());
    else if (a == "--solver-timeout") g_solverTimeoutMs = atoi(nx().c_str()); else if (a == "--dump") { g_dumpDir = nx(); g_dumpMax = 40; } else if (a == "--bfs") o_bfs = true; else if (a == "--root") o_root = nx(); else if (a == "--lines") o_lines = true; else if (a == "--mem") o_maxMem = strtoull(nx().c_str(), 0, 10); else if (a == "--seed") o_seed = strtoull(nx().c_str(), 0, 10);
    else in = a;
  }
  g_t0 = std::chrono::steady_clock::now();
  struct rlimit rl = {512u << 20, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rl);
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)g_sh, 0, sizeof *g_sh); g_sh->active = 1;
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(in, err, ctx);
  if (!mod) { err.print("symx", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  regAll();
  std::string tdir = o_tmp + "/symx." + std::to_string(getpid()); mkdir(tdir.c_str(), 0777);
  State* s0 = setup(); work.push_back(s0);
  runAll();
  std::string part = tdir + "/part." + std::to_string(getpid()); writeResults(part);
  __sync_sub_and_fetch(&g_sh->active, 1);
  int bad = 0;
  for (pid_t p : g_children) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad++; }
  if (!g_root) _exit(bad ? 1 : 0);
  // merge
  std::map<std::string, double> num; std::map<std::string, u64> inc, cov; std::map<std::string, std::string> viol; std::vector<std::string> samples; std::set<std::string> funcs, lines; double maxq = 0; int nparts = 0;
  std::string cmd = tdir; 
  FILE* ls = popen(("ls " + tdir).c_str(), "r"); char nb[512];
  while (fgets(nb, sizeof nb, ls)) {
    std::string fn = nb; while (!fn.empty() && fn.back() == '\n') fn.pop_back();
    FILE* fp = fopen((tdir + "/" + fn).c_str(), "r"); if (!fp) continue; nparts++;
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, fp)) > 0) {
      std::string l(line, n); while (!l.empty() && l.back() == '\n') l.pop_back();
      std::vector<std::string> t; size_t p = 0; while (t.size() < 2) { size_t q = l.find('\t', p); if (q == std::string::npos) break; t.push_back(l.substr(p, q - p)); p = q + 1; } t.push_back(l.substr(p));
      if (t[0] == "N") num[t[1]] += atof(t[2].c_str()); else if (t[0] == "X") maxq = std::max(maxq, atof(t[2].c_str())); else if (t[0] == "I") inc[t[1]] += strtoull(t[2].c_str(), 0, 10); else if (t[0] == "C") cov[t[1]] += strtoull(t[2].c_str(), 0, 10);
      else if (t[0] == "V") { if (!viol.count(t[1])) viol[t[1]] = t[2]; } else if (t[0] == "S") samples.push_back(t[1]); else if (t[0] == "F") funcs.insert(t[1]); else if (t[0] == "L") lines.insert(t[1]);
    }
    free(line); fclose(fp); unlink((tdir + "/" + fn).c_str());
  }
  pclose(ls); rmdir(tdir.c_str());
  if (bad) inc["worker process died"] += bad;
  FILE* o = fopen(o_out.c_str(), "w"); if (!o) return 3;
  fprintf(o, "{\"stats\":{"); bool first = true; for (auto& p : num) { fprintf(o, "%s\"%s\":%.6g", first ? "" : ",", p.first.c_str(), p.second); first = false; }
  fprintf(o, ",\"maxq\":%.6g,\"wall\":%.6g,\"workers\":%d},\n\"violations\":{", maxq, now(), nparts); first = true; for (auto& p : viol) { fprintf(o, "%s\n\"%s\":%s", first ? "" : ",", p.first.c_str(), p.second.c_str()); first = false; }
  fprintf(o, "},\n\"incomplete\":{"); first = true; for (auto& p : inc) { fprintf(o, "%s\"%s\":%lu", first ? "" : ",", jesc(p.first).c_str(), p.second); first = false; }
  fprintf(o, "},\n\"covers\":{"); first = true; for (auto& p : cov) { fprintf(o, "%s\"%s\":%lu", first ? "" : ",", jesc(p.first).c_str(), p.second); first = false; }
  fprintf(o, "},\n\"samples\":["); first = true; for (auto& p : samples) { fprintf(o, "%s\n%s", first ? "" : ",", p.c_str()); first = false; }
  fprintf(o, "],\n\"functions\":["); first = true; for (auto& p : funcs) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(p).c_str()); first = false; }
  fprintf(o, "],\n\"lines\":["); first = true; for (auto& p : lines) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(p).c_str()); first = false; }
  fprintf(o, "]}\n"); fclose(o);
  return 0;
}
