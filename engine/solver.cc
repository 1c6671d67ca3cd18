#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <map>
#include <set>
#include <z3.h>

SolverStats g_ss;
unsigned g_solverTimeoutMs = 30000;
std::string g_dumpDir; unsigned g_dumpMax = 0; static unsigned g_dumped = 0;
static Z3_context C;
static Z3_solver S;
static pid_t g_pid = 0;
static Z3_sort sortBV(unsigned w) {
  static std::map<unsigned, Z3_sort> m;
  auto it = m.find(w); if (it != m.end()) return it->second;
  Z3_sort s = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, (Z3_ast)s); m[w] = s; return s;
}
static void err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(C, err);
}
static Z3_ast ref(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_sort fpSort(unsigned w) { static Z3_sort s32, s64; if (!s32) { s32 = Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, (Z3_ast)s32); s64 = Z3_mk_fpa_sort_64(C); Z3_inc_ref(C, (Z3_ast)s64); } return w == 32 ? s32 : s64; }

static Z3_ast tr(Node* n);
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, ref(Z3_mk_unsigned_int64(C, 1, sortBV(1))), ref(Z3_mk_unsigned_int64(C, 0, sortBV(1)))); }
// width-1 nodes are translated to Bool; trBV forces a bit-vector
static Z3_ast trBV(Node* n) { Z3_ast a = tr(n); return n->w == 1 ? ref(b2bv(a)) : a; }
static Z3_ast bvToBool(Z3_ast a) { return Z3_mk_eq(C, a, ref(Z3_mk_unsigned_int64(C, 1, sortBV(1)))); }
static Z3_ast rne() { static Z3_ast r; if (!r) r = ref(Z3_mk_fpa_rne(C)); return r; }
static Z3_ast rtz() { static Z3_ast r; if (!r) r = ref(Z3_mk_fpa_rtz(C)); return r; }
static Z3_ast trFP(Node* n) {  // as a Z3 FP term
  switch (n->k) {
    case K_FADD: return ref(Z3_mk_fpa_add(C, rne(), trFP(n->a), trFP(n->b)));
    case K_FSUB: return ref(Z3_mk_fpa_sub(C, rne(), trFP(n->a), trFP(n->b)));
    case K_FMUL: return ref(Z3_mk_fpa_mul(C, rne(), trFP(n->a), trFP(n->b)));
    case K_FDIV: return ref(Z3_mk_fpa_div(C, rne(), trFP(n->a), trFP(n->b)));
    case K_FFMA: return ref(Z3_mk_fpa_fma(C, rne(), trFP(n->a), trFP(n->b), trFP(n->c)));
    case K_FSQRT: return ref(Z3_mk_fpa_sqrt(C, rne(), trFP(n->a)));
    case K_FPCVT: return ref(Z3_mk_fpa_to_fp_float(C, rne(), trFP(n->a), fpSort(n->w)));
    case K_SITOFP: return ref(Z3_mk_fpa_to_fp_signed(C, rne(), trBV(n->a), fpSort(n->w)));
    case K_UITOFP: return ref(Z3_mk_fpa_to_fp_unsigned(C, rne(), trBV(n->a), fpSort(n->w)));
    default: return ref(Z3_mk_fpa_to_fp_bv(C, trBV(n), fpSort(n->w)));
  }
}
static Z3_ast mkc(Node* n) {
  if (n->w == 1) return n->val ? Z3_mk_true(C) : Z3_mk_false(C);
  if (n->w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)n->val, sortBV(n->w));
  std::string s; u128 v = n->val; if (!v) s = "0"; while (v) { s = char('0' + (int)(v % 10)) + s; v /= 10; }
  return Z3_mk_numeral(C, s.c_str(), sortBV(n->w));
}
static Z3_ast tr(Node* n) {
  if (n->z3) return (Z3_ast)n->z3;
  Z3_ast r;
  bool bl = n->w == 1;
  auto A = [&]() { return tr(n->a); };
  auto B = [&]() { return tr(n->b); };
  switch (n->k) {
    case K_CONST: r = mkc(n); break;
    case K_VAR: {
      std::string nm = "v" + std::to_string(n->aux) + "_" + g_vars[n->aux].name;
      r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), bl ? Z3_mk_bool_sort(C) : sortBV(n->w)); break;
    }
    case K_NOT: r = bl ? Z3_mk_not(C, A()) : Z3_mk_bvnot(C, A()); break;
    case K_AND: { Z3_ast t[2] = {A(), B()}; r = bl ? Z3_mk_and(C, 2, t) : Z3_mk_bvand(C, t[0], t[1]); break; }
    case K_OR: { Z3_ast t[2] = {A(), B()}; r = bl ? Z3_mk_or(C, 2, t) : Z3_mk_bvor(C, t[0], t[1]); break; }
    case K_XOR: { Z3_ast x = A(), y = B(); r = bl ? Z3_mk_xor(C, x, y) : Z3_mk_bvxor(C, x, y); break; }
    case K_EQ: { Z3_ast x = A(), y = B(); r = Z3_mk_eq(C, x, y); break; }
    case K_ITE: { Z3_ast c = tr(n->a), x = tr(n->b), y = tr(n->c); r = Z3_mk_ite(C, c, x, y); break; }
    case K_CONCAT: { Z3_ast x = trBV(n->a), y = trBV(n->b); r = Z3_mk_concat(C, x, y); break; }
    case K_EXTRACT: { Z3_ast x = trBV(n->a); r = Z3_mk_extract(C, n->aux + n->w - 1, n->aux, x); if (bl) r = bvToBool(ref(r)); break; }
    case K_ZEXT: { Z3_ast x = trBV(n->a); r = Z3_mk_zero_ext(C, n->w - n->a->w, x); break; }
    case K_SEXT: { Z3_ast x = trBV(n->a); r = Z3_mk_sign_ext(C, n->w - n->a->w, x); break; }
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FFMA: case K_FSQRT: case K_FPCVT: case K_SITOFP: case K_UITOFP:
      r = Z3_mk_fpa_to_ieee_bv(C, trFP(n)); break;
    case K_FNEG: { Z3_ast x = trBV(n->a); r = Z3_mk_bvxor(C, x, ref(mkc(mkConst((u128)1 << (n->w - 1), n->w)))); break; }
    case K_FABS: { Z3_ast x = trBV(n->a); r = Z3_mk_bvand(C, x, ref(mkc(mkConst(maskw(n->w) >> 1, n->w)))); break; }
    case K_FOEQ: r = Z3_mk_fpa_eq(C, trFP(n->a), trFP(n->b)); break;
    case K_FOLT: r = Z3_mk_fpa_lt(C, trFP(n->a), trFP(n->b)); break;
    case K_FOLE: r = Z3_mk_fpa_leq(C, trFP(n->a), trFP(n->b)); break;
    case K_FUNO: { Z3_ast t[2] = {ref(Z3_mk_fpa_is_nan(C, trFP(n->a))), ref(Z3_mk_fpa_is_nan(C, trFP(n->b)))}; r = Z3_mk_or(C, 2, t); break; }
    case K_FPTOSI: r = Z3_mk_fpa_to_sbv(C, rtz(), trFP(n->a), n->w); break;
    case K_FPTOUI: r = Z3_mk_fpa_to_ubv(C, rtz(), trFP(n->a), n->w); break;
    default: {
      Z3_ast x = trBV(n->a), y = trBV(n->b);
      switch (n->k) {
        case K_ADD: r = Z3_mk_bvadd(C, x, y); break;
        case K_SUB: r = Z3_mk_bvsub(C, x, y); break;
        case K_MUL: r = Z3_mk_bvmul(C, x, y); break;
        case K_UDIV: r = Z3_mk_bvudiv(C, x, y); break;
        case K_SDIV: r = Z3_mk_bvsdiv(C, x, y); break;
        case K_UREM: r = Z3_mk_bvurem(C, x, y); break;
        case K_SREM: r = Z3_mk_bvsrem(C, x, y); break;
        case K_SHL: r = Z3_mk_bvshl(C, x, y); break;
        case K_LSHR: r = Z3_mk_bvlshr(C, x, y); break;
        case K_ASHR: r = Z3_mk_bvashr(C, x, y); break;
        case K_ULT: r = Z3_mk_bvult(C, x, y); break;
        case K_ULE: r = Z3_mk_bvule(C, x, y); break;
        case K_SLT: r = Z3_mk_bvslt(C, x, y); break;
        case K_SLE: r = Z3_mk_bvsle(C, x, y); break;
        default: fprintf(stderr, "untranslatable node kind %d\n", n->k); _exit(3);
      }
      if (bl && !(n->k >= K_ULT && n->k <= K_SLE)) r = bvToBool(ref(r));
    }
  }
  ref(r); n->z3 = (void*)r;
  return r;
}

// query cache: key = sorted node ids of the slice + extra
struct KeyHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (uint32_t x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, std::pair<Sat, std::vector<std::pair<uint32_t, u128>>>, KeyHash> g_cache;
static std::vector<Model> g_recent;  // recent models
static size_t g_recentPos = 0;

static bool evalTrue(const std::vector<Node*>& cs, const Model& m) {
  uint64_t ep = newEpoch();
  for (Node* c : cs) if (!evalNode(c, m, ep)) return false;
  return true;
}

Sat solve(const std::vector<Node*>& pc, Node* extra, const Model& base, Model* out) {
  if (isConst(extra)) { if (extra->val) { if (out) *out = base; return Sat::kSat; } return Sat::kUnsat; }
  // independence slice
  std::vector<Node*> slice; slice.push_back(extra);
  std::vector<uint32_t> vars = freeVars(extra);
  std::vector<char> in(pc.size(), 0);
  bool chg = true;
  static std::vector<char> mark;
  mark.assign(g_vars.size(), 0);
  for (uint32_t v : vars) mark[v] = 1;
  while (chg) {
    chg = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (in[i]) continue;
      const auto& fv = freeVars(pc[i]);
      bool hit = false;
      for (uint32_t v : fv) if (mark[v]) { hit = true; break; }
      if (!hit) continue;
      in[i] = 1; chg = true; slice.push_back(pc[i]);
      for (uint32_t v : fv) if (!mark[v]) { mark[v] = 1; vars.push_back(v); }
    }
  }
  g_ss.queries++;
  std::vector<uint32_t> key; for (Node* n : slice) key.push_back(n->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = g_cache.find(key);
  auto apply = [&](const std::vector<std::pair<uint32_t, u128>>& asg) {
    if (!out) return;
    *out = base; if (out->size() < g_vars.size()) out->resize(g_vars.size(), 0);
    for (auto& p : asg) (*out)[p.first] = p.second;
  };
  if (it != g_cache.end()) { g_ss.cacheHits++; if (it->second.first == Sat::kSat) apply(it->second.second); return it->second.first; }
  // recent models
  for (Model& m : g_recent) {
    if (evalTrue(slice, m)) {
      g_ss.cacheHits++;
      std::vector<std::pair<uint32_t, u128>> asg; for (uint32_t v : vars) asg.push_back({v, v < m.size() ? m[v] : 0});
      apply(asg); g_cache[key] = {Sat::kSat, asg};
      return Sat::kSat;
    }
  }
  init();
  auto t0 = std::chrono::steady_clock::now();
  static Z3_solver solver = nullptr;
  if (!solver) {
    solver = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, solver);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_solverTimeoutMs);
    Z3_solver_set_params(C, solver, p); Z3_params_dec_ref(C, p);
  }
  Z3_solver_push(C, solver);
  for (Node* n : slice) Z3_solver_assert(C, solver, tr(n));
  Z3_lbool r = Z3_solver_check(C, solver);
  Z3_solver used = solver; bool alt = false;
  if (r == Z3_L_UNDEF) {  // second chance: the bit-blasting QF_BV solver
    Z3_solver s2 = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, s2);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_solverTimeoutMs);
    Z3_solver_set_params(C, s2, p); Z3_params_dec_ref(C, p);
    for (Node* n : slice) Z3_solver_assert(C, s2, tr(n));
    r = Z3_solver_check(C, s2); used = s2; alt = true;
  }
  Sat res = r == Z3_L_TRUE ? Sat::kSat : r == Z3_L_FALSE ? Sat::kUnsat : Sat::kUnknown;
  if (!g_dumpDir.empty() && g_dumped < g_dumpMax && res != Sat::kUnknown) {
    g_dumped++;
    std::string f = g_dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(g_dumped) + ".smt2";
    if (FILE* fp = fopen(f.c_str(), "w")) {
      fprintf(fp, "(set-info :status %s)\n%s\n(check-sat)\n", res == Sat::kSat ? "sat" : "unsat", Z3_solver_to_string(C, used)); fclose(fp);
    }
  }
  if (res == Sat::kSat) {
    g_ss.sat++;
    Z3_model m = Z3_solver_get_model(C, used); Z3_model_inc_ref(C, m);
    std::vector<std::pair<uint32_t, u128>> asg;
    Model nm(g_vars.size(), 0);
    for (uint32_t v : vars) {
      Node* vn = nullptr; (void)vn;
      // locate the variable's translation through its node: variables are interned by index
      extern Node* varNode(uint32_t);
      Z3_ast val = nullptr; u128 x = 0;
      Z3_ast t = tr(varNode(v));
      if (Z3_model_eval(C, m, t, true, &val) && val) {
        Z3_inc_ref(C, val);
        if (g_vars[v].w == 1) x = Z3_get_bool_value(C, val) == Z3_L_TRUE;
        else { std::string s = Z3_get_numeral_string(C, val); for (char ch : s) if (ch >= '0' && ch <= '9') x = x * 10 + (ch - '0'); }
        Z3_dec_ref(C, val);
      }
      asg.push_back({v, x}); nm[v] = x;
    }
    Z3_model_dec_ref(C, m);
    if (!evalTrue(slice, nm)) {
      // the concrete semantics and the solver disagree: never trust such an answer
      fprintf(stderr, "solver model does not satisfy the query under the concrete semantics\n");
      for (Node* c : slice) { uint64_t ep = newEpoch(); if (!evalNode(c, nm, ep)) fprintf(stderr, "  false: %s\n", toStr(c, 12).c_str()); }
      res = Sat::kUnknown;
    } else {
      apply(asg); g_cache[key] = {res, asg};
      if (g_recent.size() < 24) g_recent.push_back(nm); else g_recent[g_recentPos++ % 24] = nm;
    }
  } else if (res == Sat::kUnsat) { g_ss.unsat++; g_cache[key] = {res, {}}; }
  else g_ss.unknown++;
  if (alt) Z3_solver_dec_ref(C, used);
  Z3_solver_pop(C, solver, 1);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt; if (dt > g_ss.maxq) g_ss.maxq = dt;
  return res;
}
