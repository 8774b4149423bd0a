#include "expr.h"
#include <deque>
#include <unordered_map>
#include <cstring>
#include <cstdlib>
#include <cstdio>

namespace {
std::deque<Expr> arena;
std::vector<Expr*> table(1 << 16, nullptr);
std::vector<uint32_t> nexts;
size_t count_ = 0;

inline uint64_t mix(uint64_t h, uint64_t x) {
  h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}
uint64_t hashOf(const Expr& e) {
  uint64_t h = (uint64_t)e.k * 131 + e.w;
  h = mix(h, e.lo); h = mix(h, e.c);
  h = mix(h, (uint64_t)e.a >> 4); h = mix(h, (uint64_t)e.b >> 4); h = mix(h, (uint64_t)e.d >> 4);
  return h ^ (h >> 29);
}
struct Slot { Expr* e; uint64_t h; };
std::vector<Slot> slots(1 << 16, Slot{nullptr, 0});
void grow() {
  std::vector<Slot> n(slots.size() * 2, Slot{nullptr, 0});
  for (auto& s : slots) if (s.e) {
    size_t i = s.h & (n.size() - 1);
    while (n[i].e) i = (i + 1) & (n.size() - 1);
    n[i] = s;
  }
  slots.swap(n);
}
E intern(Expr t) {
  uint64_t h = hashOf(t);
  size_t i = h & (slots.size() - 1);
  while (slots[i].e) {
    Expr* e = slots[i].e;
    if (slots[i].h == h && e->k == t.k && e->w == t.w && e->lo == t.lo && e->c == t.c &&
        e->a == t.a && e->b == t.b && e->d == t.d) return e;
    i = (i + 1) & (slots.size() - 1);
  }
  t.id = (uint32_t)count_++;
  t.z3 = nullptr;
  arena.push_back(t);
  Expr* p = &arena.back();
  slots[i] = Slot{p, h};
  if (count_ * 2 > slots.size()) grow();
  return p;
}
E node(K k, unsigned w, E a, E b = nullptr, E d = nullptr, uint32_t lo = 0) {
  Expr t{};
  t.k = k; t.w = (uint8_t)w; t.lo = lo; t.a = a; t.b = b; t.d = d;
  t.undef = (a && a->undef) || (b && b->undef) || (d && d->undef);
  if (a) t.vars.add(a->vars);
  if (b) t.vars.add(b->vars);
  if (d) t.vars.add(d->vars);
  return intern(t);
}
bool commutes(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq; }
unsigned resW(K k, unsigned w) { return (k >= K::Eq && k <= K::Sle) ? 1 : w; }
}

size_t exprCount() { return count_; }

E mkConst(uint64_t v, unsigned w) {
  Expr t{}; t.k = K::Const; t.w = (uint8_t)w; t.c = v & maskw(w);
  return intern(t);
}
E mkVar(unsigned id, unsigned w) {
  Expr t{}; t.k = K::Var; t.w = (uint8_t)w; t.lo = id; t.vars.set(id);
  return intern(t);
}
E mkUndef(unsigned w) {
  Expr t{}; t.k = K::Undef; t.w = (uint8_t)w; t.undef = true;
  return intern(t);
}

uint64_t foldBin(K k, uint64_t a, uint64_t b, unsigned w, bool& ok) {
  ok = true;
  uint64_t m = maskw(w);
  int64_t sa = sextw(a, w), sb = sextw(b, w);
  switch (k) {
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: if (!b) return m; return (a / b) & m;
    case K::URem: if (!b) return a; return (a % b) & m;
    case K::SDiv: if (!b) return sa < 0 ? 1 : m; if (sb == -1) return (0 - (uint64_t)sa) & m; return (uint64_t)(sa / sb) & m;
    case K::SRem: if (!b) return a; if (sb == -1) return 0; return (uint64_t)(sa % sb) & m;
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << b) & m;
    case K::LShr: return b >= w ? 0 : (a & m) >> b;
    case K::AShr: return (uint64_t)(sa >> (b >= w ? w - 1 : b)) & m;
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sa < sb;
    case K::Sle: return sa <= sb;
    default: ok = false; return 0;
  }
}

E mkNot(E a) {
  return mkBin(K::Xor, a, mkConst(1, 1));
}

E mkBin(K k, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) {
    bool ok; uint64_t v = foldBin(k, a->c, b->c, w, ok);
    return mkConst(v, resW(k, w));
  }
  if (commutes(k) && isC(a)) std::swap(a, b);
  if (commutes(k) && !isC(b) && a->id > b->id) std::swap(a, b);
  bool bc = isC(b);
  if (k >= K::Eq && k <= K::Sle && w > 1) { // comparison of a two-constant ite with a constant
    E i = bc ? a : isC(a) ? b : nullptr;
    if (i && i->k == K::Ite && isC(i->b) && isC(i->d)) {
      bool ok;
      uint64_t x = bc ? foldBin(k, i->b->c, b->c, w, ok) : foldBin(k, a->c, i->b->c, w, ok);
      uint64_t y = bc ? foldBin(k, i->d->c, b->c, w, ok) : foldBin(k, a->c, i->d->c, w, ok);
      if (x == y) return mkConst(x, 1);
      return x ? i->a : mkNot(i->a);
    }
  }
  switch (k) {
    case K::Add:
      if (bc && b->c == 0) return a;
      if (bc && a->k == K::Add && isC(a->b)) return mkBin(K::Add, a->a, mkConst(a->b->c + b->c, w));
      break;
    case K::Sub:
      if (bc) return mkBin(K::Add, a, mkConst(0 - b->c, w));
      if (a == b && !a->undef) return mkConst(0, w);
      if (a->k == K::Add && a->a == b && !b->undef) return a->b;
      if (a->k == K::Add && a->b == b && !b->undef) return a->a;
      if (b->k == K::Add && b->a == a && isC(b->b) && !a->undef) return mkConst(0 - b->b->c, w);
      if (a->k == K::Add && b->k == K::Add && isC(a->b) && isC(b->b) && a->a == b->a && !a->undef)
        return mkConst(a->b->c - b->b->c, w);
      break;
    case K::Mul:
      if (bc && b->c == 0) return b;
      if (bc && b->c == 1) return a;
      break;
    case K::UDiv: if (bc && b->c == 1) return a;
      if (bc && b->c && !(b->c & (b->c - 1))) return mkBin(K::LShr, a, mkConst(__builtin_ctzll(b->c), w));
      break;
    case K::SDiv: if (bc && b->c == 1) return a; break;
    case K::URem:
      if (bc && b->c && !(b->c & (b->c - 1))) return mkBin(K::And, a, mkConst(b->c - 1, w));
      break;
    case K::And:
      if (bc && b->c == 0) return b;
      if (bc && b->c == maskw(w)) return a;
      if (a == b) return a;
      if (bc && a->k == K::And && isC(a->b)) return mkBin(K::And, a->a, mkConst(a->b->c & b->c, w));
      if (bc && a->k == K::Concat) {
        unsigned lw = a->b->w;
        return mkConcat(mkBin(K::And, a->a, mkConst(b->c >> lw, a->a->w)), mkBin(K::And, a->b, mkConst(b->c, lw)));
      }
      if (bc && a->k == K::ZExt) return mkZExt(mkBin(K::And, a->a, mkConst(b->c, a->a->w)), w);
      if (w == 1 && a->k == K::Xor && isC(a->b) && a->a == b && !b->undef) return mkConst(0, 1);
      if (w == 1 && b->k == K::Xor && isC(b->b) && b->a == a && !a->undef) return mkConst(0, 1);
      break;
    case K::Or:
      if (bc && b->c == 0) return a;
      if (bc && b->c == maskw(w)) return b;
      if (a == b) return a;
      if (bc && a->k == K::Concat) {
        unsigned lw = a->b->w;
        return mkConcat(mkBin(K::Or, a->a, mkConst(b->c >> lw, a->a->w)), mkBin(K::Or, a->b, mkConst(b->c, lw)));
      }
      break;
    case K::Xor:
      if (bc && b->c == 0) return a;
      if (a == b && !a->undef) return mkConst(0, w);
      if (bc && a->k == K::Xor && isC(a->b)) return mkBin(K::Xor, a->a, mkConst(a->b->c ^ b->c, w));
      if (w == 1 && bc) { // negation of comparisons
        if (a->k == K::Ult) return mkBin(K::Ule, a->b, a->a);
        if (a->k == K::Ule) return mkBin(K::Ult, a->b, a->a);
        if (a->k == K::Slt) return mkBin(K::Sle, a->b, a->a);
        if (a->k == K::Sle) return mkBin(K::Slt, a->b, a->a);
      }
      break;
    case K::Shl:
      if (bc && b->c == 0) return a;
      if (bc && b->c >= w) return mkConst(0, w);
      if (bc) return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkConst(0, (unsigned)b->c));
      break;
    case K::LShr:
      if (bc && b->c == 0) return a;
      if (bc && b->c >= w) return mkConst(0, w);
      if (bc) return mkZExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
      break;
    case K::AShr:
      if (bc && b->c == 0) return a;
      if (bc && b->c < w) return mkSExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
      break;
    case K::Eq:
      if (a == b && !a->undef) return mkConst(1, 1);
      if (w == 1 && bc) return b->c ? a : mkNot(a);
      if (bc && a->k == K::Add && isC(a->b)) return mkBin(K::Eq, a->a, mkConst(b->c - a->b->c, w));
      if (bc && a->k == K::ZExt) {
        if (b->c & ~maskw(a->a->w)) { if (!a->undef) return mkConst(0, 1); }
        else return mkBin(K::Eq, a->a, mkConst(b->c, a->a->w));
      }
      if (bc && a->k == K::SExt) {
        if ((uint64_t)sextw(b->c, a->a->w) == (uint64_t)sextw(b->c, w)) return mkBin(K::Eq, a->a, mkConst(b->c, a->a->w));
        if (!a->undef) return mkConst(0, 1);
      }
      if (bc && a->k == K::Ite && isC(a->b) && isC(a->d)) {
        bool t = a->b->c == b->c, f = a->d->c == b->c;
        if (t && f) return mkConst(1, 1);
        if (!t && !f) return mkConst(0, 1);
        return t ? a->a : mkNot(a->a);
      }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
      break;
    case K::Ult:
      if (a == b && !a->undef) return mkConst(0, 1);
      if (bc && b->c == 0) return mkConst(0, 1);
      if (bc && b->c == 1) return mkBin(K::Eq, a, mkConst(0, w));
      if (bc && a->k == K::ZExt && b->c > maskw(a->a->w) && !a->undef) return mkConst(1, 1);
      break;
    case K::Ule:
      if (a == b && !a->undef) return mkConst(1, 1);
      if (bc && b->c == maskw(w)) return mkConst(1, 1);
      if (isC(a) && a->c == 0) return mkConst(1, 1);
      if (bc && a->k == K::ZExt && b->c >= maskw(a->a->w) && !a->undef) return mkConst(1, 1);
      break;
    case K::Slt: if (a == b && !a->undef) return mkConst(0, 1); break;
    case K::Sle: if (a == b && !a->undef) return mkConst(1, 1); break;
    default: break;
  }
  return node(k, resW(k, w), a, b);
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K::Xor && isC(c->b)) return mkIte(c->a, b, a);
  if (a->w == 1 && isC(a) && isC(b)) return a->c ? c : mkNot(c);
  if (a->w == 1 && isC(b) && !a->undef && !c->undef) return b->c ? mkBin(K::Or, mkNot(c), a) : mkBin(K::And, c, a);
  if (a->w == 1 && isC(a) && !b->undef && !c->undef) return a->c ? mkBin(K::Or, c, b) : mkBin(K::And, mkNot(c), b);
  return node(K::Ite, a->w, c, a, b);
}

E mkConcat(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, hi->w + lo->w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, hi->w + lo->w);
  if (hi->k == K::Undef && lo->k == K::Undef) return mkUndef(hi->w + lo->w);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->lo == lo->lo + lo->w)
    return mkExtract(hi->a, lo->lo, hi->w + lo->w);
  if (hi->k == K::Extract && hi->a == lo && hi->lo == lo->w && false) return lo;
  if (lo->k == K::Concat) // right-assoc -> left-assoc: (hi . (b . d)) => ((hi . b) . d)
    return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (hi->k == K::Concat && hi->b->k == K::Extract && lo->k == K::Extract && hi->b->a == lo->a && hi->b->lo == lo->lo + lo->w)
    return mkConcat(hi->a, mkExtract(lo->a, lo->lo, hi->b->w + lo->w));
  if (hi->k == K::Concat && isC(hi->b) && isC(lo)) return mkConcat(hi->a, mkConcat(hi->b, lo));
  return node(K::Concat, hi->w + lo->w, hi, lo);
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
    case K::Const: return mkConst(a->c >> lo, w);
    case K::Undef: return mkUndef(w);
    case K::Extract: return mkExtract(a->a, a->lo + lo, w);
    case K::Concat: {
      unsigned lw = a->b->w;
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case K::ZExt: {
      unsigned iw = a->a->w;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, iw - lo), w);
    }
    case K::SExt:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo == 0) return mkSExt(a->a, w);
      break;
    case K::Ite:
      if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
      break;
    case K::And: case K::Or: case K::Xor:
      return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case K::Add: case K::Mul:
      if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return node(K::Extract, w, a, nullptr, nullptr, lo);
}

E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  return node(K::ZExt, w, a);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((uint64_t)sextw(a->c, a->w), w);
  if (a->k == K::SExt) return mkSExt(a->a, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  return node(K::SExt, w, a);
}

E substUndef(E e, bool ones) {
  if (!e->undef) return e;
  if (e->k == K::Undef) return mkConst(ones ? ~0ull : 0, e->w);
  E a = e->a ? substUndef(e->a, ones) : nullptr;
  E b = e->b ? substUndef(e->b, ones) : nullptr;
  E d = e->d ? substUndef(e->d, ones) : nullptr;
  switch (e->k) {
    case K::Ite: return mkIte(a, b, d);
    case K::Concat: return mkConcat(a, b);
    case K::Extract: return mkExtract(a, e->lo, e->w);
    case K::ZExt: return mkZExt(a, e->w);
    case K::SExt: return mkSExt(a, e->w);
    default: return mkBin(e->k, a, b);
  }
}

uint64_t evalExpr(E e, const Model& m) {
  switch (e->k) {
    case K::Const: return e->c;
    case K::Var: return (e->lo < m.v.size() ? m.v[e->lo] : 0) & maskw(e->w);
    case K::Undef: return 0;
    case K::Ite: return evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->d, m);
    case K::Concat: return (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m);
    case K::Extract: return (evalExpr(e->a, m) >> e->lo) & maskw(e->w);
    case K::ZExt: return evalExpr(e->a, m);
    case K::SExt: return (uint64_t)sextw(evalExpr(e->a, m), e->a->w) & maskw(e->w);
    default: {
      bool ok;
      return foldBin(e->k, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w, ok);
    }
  }
}

std::string showExpr(E e, int depth) {
  static const char* n[] = {"c","v","undef","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","concat","extract","zext","sext"};
  char buf[64];
  switch (e->k) {
    case K::Const: snprintf(buf, 64, "%lld", (long long)sextw(e->c, e->w)); return buf;
    case K::Var: snprintf(buf, 64, "v%u", e->lo); return buf;
    case K::Undef: return "undef";
    default: break;
  }
  if (depth <= 0) return "...";
  std::string s = std::string("(") + n[(int)e->k];
  if (e->a) s += " " + showExpr(e->a, depth - 1);
  if (e->b) s += " " + showExpr(e->b, depth - 1);
  if (e->d) s += " " + showExpr(e->d, depth - 1);
  return s + ")";
}
