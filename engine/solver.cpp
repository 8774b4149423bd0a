#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>

SolverStats gSolver;
namespace {
Z3_context C; Z3_solver S; Z3_solver S2;
std::vector<E> pushed;
unsigned tmo = 20000;
std::vector<Z3_ast> vars; // by id
std::vector<uint8_t> varw;
std::unordered_map<uint64_t, Sat> cache;
bool hadError = false;

void onErr(Z3_context c, Z3_error_code e) { hadError = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

Z3_ast tr(E e);
Z3_ast b2bv(Z3_ast b) {
  Z3_sort s = Z3_mk_bv_sort(C, 1);
  return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, s), Z3_mk_unsigned_int64(C, 0, s));
}
// Two translations: width-1 expressions as Bool (trB), everything as bit-vector (tr).
std::unordered_map<E, Z3_ast> boolCache;
Z3_ast trB(E e) {
  auto it = boolCache.find(e);
  if (it != boolCache.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
    case K::Const: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K::Eq:
      if (e->a->w == 1) r = Z3_mk_iff(C, trB(e->a), trB(e->b));
      else r = Z3_mk_eq(C, tr(e->a), tr(e->b));
      break;
    case K::Ult: r = Z3_mk_bvult(C, tr(e->a), tr(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(C, tr(e->a), tr(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(C, tr(e->a), tr(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(C, tr(e->a), tr(e->b)); break;
    case K::And: { Z3_ast a[2] = {trB(e->a), trB(e->b)}; r = Z3_mk_and(C, 2, a); break; }
    case K::Or: { Z3_ast a[2] = {trB(e->a), trB(e->b)}; r = Z3_mk_or(C, 2, a); break; }
    case K::Xor: r = isC(e->b) ? (e->b->c ? Z3_mk_not(C, trB(e->a)) : trB(e->a)) : Z3_mk_xor(C, trB(e->a), trB(e->b)); break;
    case K::Ite: r = Z3_mk_ite(C, trB(e->a), trB(e->b), trB(e->d)); break;
    default: r = Z3_mk_eq(C, tr(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))); break;
  }
  Z3_inc_ref(C, r);
  boolCache[e] = r;
  return r;
}
Z3_ast tr(E e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r = nullptr;
  if (e->w == 1 && e->k != K::Var && e->k != K::Extract && e->k != K::Const && e->k != K::Undef &&
      (e->k >= K::Eq && e->k <= K::Sle)) {
    r = b2bv(trB(e));
  } else switch (e->k) {
    case K::Const: r = Z3_mk_unsigned_int64(C, e->c, Z3_mk_bv_sort(C, e->w)); break;
    case K::Var: {
      if (vars.size() <= e->lo) { vars.resize(e->lo + 1, nullptr); varw.resize(e->lo + 1, 0); }
      char n[32]; snprintf(n, 32, "v%u_%u", e->lo, e->w);
      r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_bv_sort(C, e->w));
      break;
    }
    case K::Undef: r = Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, e->w)); break;
    case K::Add: r = Z3_mk_bvadd(C, tr(e->a), tr(e->b)); break;
    case K::Sub: r = Z3_mk_bvsub(C, tr(e->a), tr(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(C, tr(e->a), tr(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(C, tr(e->a), tr(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(C, tr(e->a), tr(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(C, tr(e->a), tr(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(C, tr(e->a), tr(e->b)); break;
    case K::And: r = Z3_mk_bvand(C, tr(e->a), tr(e->b)); break;
    case K::Or: r = Z3_mk_bvor(C, tr(e->a), tr(e->b)); break;
    case K::Xor: r = Z3_mk_bvxor(C, tr(e->a), tr(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(C, tr(e->a), tr(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(C, tr(e->a), tr(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(C, tr(e->a), tr(e->b)); break;
    case K::Ite: r = Z3_mk_ite(C, trB(e->a), tr(e->b), tr(e->d)); break;
    case K::Concat: r = Z3_mk_concat(C, tr(e->a), tr(e->b)); break;
    case K::Extract: r = Z3_mk_extract(C, e->lo + e->w - 1, e->lo, tr(e->a)); break;
    case K::ZExt: r = Z3_mk_zero_ext(C, e->w - e->a->w, tr(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(C, e->w - e->a->w, tr(e->a)); break;
    default: abort();
  }
  Z3_inc_ref(C, r);
  const_cast<Expr*>(e)->z3 = r;
  return r;
}
void readModel(Z3_solver s, const std::vector<uint8_t>& widths, const VarSet& touched, Model* m) {
  Z3_model zm = Z3_solver_get_model(C, s);
  Z3_model_inc_ref(C, zm);
  m->v.resize(widths.size(), 0);
  for (unsigned i = 0; i < widths.size(); i++) {
    unsigned j = i > 255 ? 255 : i;
    if (!(touched.b[j >> 6] & (1ull << (j & 63)))) continue;
    E ve = mkVar(i, widths[i]);
    Z3_ast out = nullptr;
    if (Z3_model_eval(C, zm, tr(ve), true, &out) && out) {
      Z3_inc_ref(C, out);
      uint64_t val = 0;
      if (Z3_get_numeral_uint64(C, out, &val)) m->v[i] = val;
      Z3_dec_ref(C, out);
    }
  }
  Z3_model_dec_ref(C, zm);
}

// ---------------------------------------------------------------- difference logic
// Most path conditions are conjunctions of unsigned comparisons between terms
// "node + constant" that provably do not wrap.  Those are decided here:
//   No  : the comparisons alone are contradictory (positive cycle / forced equality);
//   Yes : a model was built and *every* constraint of the query evaluates to true in it.
// Anything else goes to z3; a sample (all of them with SX_XCHECK=1) is re-decided by z3.
typedef __int128 I;
struct Dl {
  std::vector<E> node; std::vector<I> up; std::unordered_map<E, int> ix;
  struct Edge { int a, b; I d; };   // val(b) >= val(a) + d
  std::vector<Edge> ed;
  struct Ne { int a, b; I d; };     // val(a) != val(b) + d
  std::vector<Ne> ne;
  bool falsum = false;
  int id(E e) { auto it = ix.find(e); if (it != ix.end()) return it->second; int n = (int)node.size(); node.push_back(e); up.push_back((I)maskw(e->w)); ix[e] = n; return n; }
  static I ub(E e) {
    if (isC(e)) return e->c;
    if (e->k == K::ZExt) return ub(e->a);
    if (e->k == K::Concat && isC(e->a)) return ((I)e->a->c << e->b->w) + maskw(e->b->w);
    if (e->k == K::And && isC(e->b)) return e->b->c;
    if (e->k == K::Add && isC(e->b)) { I u = ub(e->a) + e->b->c; return u <= (I)maskw(e->w) ? u : (I)maskw(e->w); }
    return maskw(e->w);
  }
  // term = node + off (node -1: constant)
  int term(E e, I& off) {
    off = 0;
    for (;;) {
      if (isC(e)) { off += e->c; return 0; }
      if (e->k == K::Add && isC(e->b) && ub(e->a) + (I)e->b->c <= (I)maskw(e->w)) { off += e->b->c; e = e->a; continue; }
      if (e->k == K::ZExt) { e = e->a; continue; }
      if (e->k == K::Concat && isC(e->a) && !e->a->c) { e = e->b; continue; }
      return id(e);
    }
  }
  void le(E x, E y, I strict) { I ox, oy; int a = term(x, ox), b = term(y, oy); ed.push_back({a, b, ox + strict - oy}); }
  typedef std::pair<E, bool> Lit;
  std::vector<std::pair<Lit, Lit>> ors;   // disjunctions still to split
  // an if-then-else inside a compared term, if any
  static E iteIn(E e) {
    for (;;) {
      if (e->k == K::Ite) return e;
      if ((e->k == K::Add && isC(e->b)) || e->k == K::ZExt || (e->k == K::Concat && isC(e->a)) || e->k == K::SExt) { e = (e->k == K::Concat) ? e->b : e->a; continue; }
      return nullptr;
    }
  }
  static E replIte(E e, bool t) {
    if (e->k == K::Ite) return t ? e->b : e->d;
    if (e->k == K::Add) return mkBin(K::Add, replIte(e->a, t), e->b);
    if (e->k == K::ZExt) return mkZExt(replIte(e->a, t), e->w);
    if (e->k == K::SExt) return mkSExt(replIte(e->a, t), e->w);
    return mkConcat(e->a, replIte(e->b, t));
  }
  void add(E e, bool neg) {
    if (isC(e)) { if ((bool)e->c == neg) falsum = true; return; }
    switch (e->k) {
      case K::Xor:
        if (e->w != 1) return;
        if (isC(e->b)) { add(e->a, neg ^ (bool)e->b->c); return; }
        return;
      case K::And: if (e->w == 1) { if (!neg) { add(e->a, false); add(e->b, false); } else ors.push_back({{e->a, true}, {e->b, true}}); } return;
      case K::Or: if (e->w == 1) { if (neg) { add(e->a, true); add(e->b, true); } else ors.push_back({{e->a, false}, {e->b, false}}); } return;
      case K::Ite: if (e->w == 1) ors.push_back({{mkBin(K::And, e->a, neg ? mkNot(e->b) : e->b), false}, {mkBin(K::And, mkNot(e->a), neg ? mkNot(e->d) : e->d), false}}); return;
      case K::Ult: case K::Ule: case K::Slt: case K::Sle: case K::Eq: {
        E it = iteIn(e->a), it2 = it ? nullptr : iteIn(e->b);
        if (it || it2) {
          E c = it ? it->a : it2->a;
          E t = it ? mkBin(e->k, replIte(e->a, true), e->b) : mkBin(e->k, e->a, replIte(e->b, true));
          E f = it ? mkBin(e->k, replIte(e->a, false), e->b) : mkBin(e->k, e->a, replIte(e->b, false));
          if (neg) { t = mkNot(t); f = mkNot(f); }
          ors.push_back({{mkBin(K::And, c, t), false}, {mkBin(K::And, mkNot(c), f), false}});
          return;
        }
        if (e->k == K::Slt || e->k == K::Sle) {  // both sides known non-negative
          I h = ((I)1 << (e->a->w - 1)); if (ub(e->a) >= h || ub(e->b) >= h) return;
          bool st = e->k == K::Slt;
          if (neg) le(e->b, e->a, st ? 0 : 1); else le(e->a, e->b, st ? 1 : 0);
          return;
        }
        if (e->k == K::Ult) { if (neg) le(e->b, e->a, 0); else le(e->a, e->b, 1); return; }
        if (e->k == K::Ule) { if (neg) le(e->b, e->a, 1); else le(e->a, e->b, 0); return; }
        if (e->a->w == 1) return;
        if (neg) { I ox, oy; int a = term(e->a, ox), b = term(e->b, oy); ne.push_back({a, b, oy - ox}); } else { le(e->a, e->b, 0); le(e->b, e->a, 0); }
        return;
      }
      default: return;
    }
  }
};
Sat dlLeaf(Dl d, const std::vector<E>& use, E cond, const std::vector<uint8_t>& widths, Model* m);
Sat dlSplit(Dl d, int& budget, const std::vector<E>& use, E cond, const std::vector<uint8_t>& widths, Model* m) {
  if (d.falsum) return Sat::No;
  if (d.ors.empty()) { if (--budget < 0) return Sat::Unknown; return dlLeaf(std::move(d), use, cond, widths, m); }
  { Dl t = d; t.ors.clear(); Sat r = dlLeaf(std::move(t), use, cond, widths, m); if (r != Sat::Unknown) return r; }
  auto o = d.ors.back(); d.ors.pop_back();
  Dl e = d;
  d.add(o.first.first, o.first.second);
  Sat r1 = dlSplit(std::move(d), budget, use, cond, widths, m);
  if (r1 == Sat::Yes || budget < 0) return r1 == Sat::Yes ? r1 : Sat::Unknown;
  e.add(o.second.first, o.second.second);
  Sat r2 = dlSplit(std::move(e), budget, use, cond, widths, m);
  if (r2 == Sat::Yes) return r2;
  return r1 == Sat::No && r2 == Sat::No ? Sat::No : Sat::Unknown;
}
Sat dlSolve(const std::vector<E>& use, E cond, const std::vector<uint8_t>& widths, Model* m) {
  Dl d; d.node.push_back(nullptr); d.up.push_back(0);
  for (E e : use) d.add(e, false);
  d.add(cond, false);
  int budget = 64;
  return dlSplit(std::move(d), budget, use, cond, widths, m);
}
Sat dlLeaf(Dl d, const std::vector<E>& use, E cond, const std::vector<uint8_t>& widths, Model* m) {
  if (d.falsum) return Sat::No;
  int n = (int)d.node.size();
  if (n > 60) return Sat::Unknown;
  for (int i = 1; i < n; i++) { d.ed.push_back({0, i, 0}); d.ed.push_back({i, 0, -Dl::ub(d.node[i])}); }
  const I NEG = -((I)1 << 100);
  std::vector<I> D((size_t)n * n, NEG);
  for (int i = 0; i < n; i++) D[i * n + i] = 0;
  for (auto& e : d.ed) { if (e.a == e.b) { if (e.d > 0) return Sat::No; continue; } I& x = D[e.a * n + e.b]; if (e.d > x) x = e.d; }
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) { I ik = D[i * n + k]; if (ik == NEG) continue;
    for (int j = 0; j < n; j++) { I kj = D[k * n + j]; if (kj == NEG) continue; I& x = D[i * n + j]; if (ik + kj > x) x = ik + kj; } }
  for (int i = 0; i < n; i++) if (D[i * n + i] > 0) return Sat::No;
  // val(a) = val(b) + d forced?   val(a)-val(b) in [D[b][a], -D[a][b]]
  for (auto& x : d.ne) { if (x.a == x.b) { if (x.d == 0) return Sat::No; continue; } if (D[x.b * n + x.a] == x.d && -D[x.a * n + x.b] == x.d) return Sat::No; }
  for (int i = 1; i < n; i++) if (d.node[i]->k != K::Var) return Sat::Unknown;
  if (!m) return Sat::Unknown;
  // Build a model: fix nodes one at a time, lowest lower bound first.
  std::vector<I> val(n, 0); std::vector<char> done(n, 0); done[0] = 1;
  for (int step = 1; step < n; step++) {
    int best = -1; I bl = 0, bu = 0;
    for (int i = 1; i < n; i++) if (!done[i]) {
      I lo = 0, hi = Dl::ub(d.node[i]);
      for (int j = 0; j < n; j++) if (done[j]) {
        if (D[j * n + i] != NEG && val[j] + D[j * n + i] > lo) lo = val[j] + D[j * n + i];
        if (D[i * n + j] != NEG && val[j] - D[i * n + j] < hi) hi = val[j] - D[i * n + j];
      }
      if (best < 0 || hi - lo < bu - bl) { best = i; bl = lo; bu = hi; }
    }
    bool ok = false;
    I v = bl;
    for (int t = 0; t < 40 && v <= bu; t++, v++) {
      bool bad = false;
      for (auto& x : d.ne) {
        if (x.a == best && done[x.b] && v == val[x.b] + x.d) bad = true;
        if (x.b == best && done[x.a] && val[x.a] == v + x.d) bad = true;
      }
      if (!bad) { ok = true; break; }
    }
    if (!ok) return Sat::Unknown;
    val[best] = v; done[best] = 1;
  }
  Model t = *m;
  t.v.resize(widths.size(), 0);
  for (int i = 1; i < n; i++) t.v[d.node[i]->lo] = (uint64_t)val[i];
  for (E e : use) if (!evalExpr(e, t)) return Sat::Unknown;
  if (!evalExpr(cond, t)) return Sat::Unknown;
  *m = t;
  return Sat::Yes;
}
bool xcheckAll = false;
uint64_t fastSeen = 0;
}

void solverInit(unsigned t) {
  tmo = t;
  xcheckAll = getenv("SX_XCHECK") != nullptr;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(C, onErr);
  S = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 3000);
  Z3_solver_set_params(C, S, p);
  Z3_params_dec_ref(C, p);
  Z3_tactic t2 = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, t2);
  S2 = Z3_mk_solver_from_tactic(C, t2);
  Z3_solver_inc_ref(C, S2);
  p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), tmo);
  Z3_solver_set_params(C, S2, p);
  Z3_params_dec_ref(C, p);
}

Sat solve(const std::vector<E>& pc, E cond, const std::vector<uint8_t>& widths, Model* m) {
  if (isC(cond) && !cond->c) return Sat::No;
  Sat want = Sat::Unknown;
  auto t0 = std::chrono::steady_clock::now();
  // Slice: keep only the constraints connected to cond through shared variables.
  VarSet vs = cond->vars;
  static std::vector<uint8_t> in;
  in.assign(pc.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++)
      if (!in[i] && pc[i]->vars.meets(vs)) { in[i] = 1; vs.add(pc[i]->vars); ch = true; }
  }
  uint64_t key = 1469598103934665603ull;
  static std::vector<E> use; use.clear();
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) { use.push_back(pc[i]); key = (key ^ pc[i]->id) * 1099511628211ull; key ^= key >> 31; }
  key = (key ^ cond->id) * 1099511628211ull; key ^= key >> 29; key = key * 31 + use.size();
  auto it = cache.find(key);
  if (it != cache.end() && it->second == Sat::No) { gSolver.cached++; return Sat::No; }
  gSolver.queries++;
  {
    Sat f = dlSolve(use, cond, widths, m);
    if (f != Sat::Unknown) {
      gSolver.fast++;
      fastSeen++;
      if (f == Sat::Yes || !(xcheckAll || fastSeen % 97 == 1)) {
        if (f == Sat::Yes) gSolver.sat++; else { gSolver.unsat++; cache[key] = f; }
        gSolver.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        return f;
      }
      want = f; gSolver.xchecked++;
    }
  }
  if (getenv("SX_DBG")) { for (E e : use) fprintf(stderr, "  U %s\n", showExpr(e).c_str()); fprintf(stderr, "Q %s\n", showExpr(cond).c_str()); }
  size_t common = 0;
  while (common < pushed.size() && common < use.size() && pushed[common] == use[common]) common++;
  if (common < pushed.size()) { Z3_solver_pop(C, S, (unsigned)(pushed.size() - common)); pushed.resize(common); }
  for (size_t i = common; i < use.size(); i++) { Z3_solver_push(C, S); Z3_solver_assert(C, S, trB(use[i])); pushed.push_back(use[i]); }
  Z3_solver_push(C, S);
  Z3_solver_assert(C, S, trB(cond));
  Z3_lbool r = Z3_solver_check(C, S);
  Z3_solver used = S;
  if (r == Z3_L_UNDEF) {
    Z3_solver_reset(C, S2);
    for (E e : use) Z3_solver_assert(C, S2, trB(e));
    Z3_solver_assert(C, S2, trB(cond));
    r = Z3_solver_check(C, S2);
    used = S2;
  }
  Sat out = r == Z3_L_TRUE ? Sat::Yes : r == Z3_L_FALSE ? Sat::No : Sat::Unknown;
  if (out == Sat::Yes && m) readModel(used, widths, vs, m);
  Z3_solver_pop(C, S, 1);
  if (want != Sat::Unknown && out != Sat::Unknown && out != want) { fprintf(stderr, "solver disagreement\n"); hadError = true; }
  if (hadError) out = Sat::Unknown;
  if (out == Sat::Yes) gSolver.sat++; else if (out == Sat::No) gSolver.unsat++; else gSolver.unknown++;
  if (out != Sat::Unknown) cache[key] = out;
  gSolver.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  return out;
}
