// Hash-consed bit-vector expressions (width 1..64).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

enum class K : uint8_t {
  Const, Var, Undef,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem,
  And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Ite, Concat, Extract, ZExt, SExt
};

// Set of symbolic-variable ids (ids above 255 share a bucket: only used to
// slice independent constraints, so sharing is sound).
struct VarSet {
  uint64_t b[4] = {0, 0, 0, 0};
  void add(const VarSet& o) { for (int i = 0; i < 4; i++) b[i] |= o.b[i]; }
  bool meets(const VarSet& o) const { for (int i = 0; i < 4; i++) if (b[i] & o.b[i]) return true; return false; }
  void set(unsigned i) { i = i > 255 ? 255 : i; b[i >> 6] |= 1ull << (i & 63); }
};

struct Expr {
  K k;
  uint8_t w;
  bool undef;          // depends on uninitialised memory
  uint32_t lo;         // Extract: low bit; Var: id
  uint64_t c;          // Const: value
  const Expr *a, *b, *d;
  uint32_t id;
  VarSet vars;
  void* z3;            // cached translation
};
typedef const Expr* E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}
inline bool isC(E e) { return e->k == K::Const; }

E mkConst(uint64_t v, unsigned w);
E mkVar(unsigned id, unsigned w);
E mkUndef(unsigned w);
E mkBin(K k, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a);                       // width 1
E substUndef(E e, bool ones);       // uninitialised leaves := 0 / all ones
uint64_t foldBin(K k, uint64_t a, uint64_t b, unsigned w, bool& ok);

struct Model { std::vector<uint64_t> v; };  // by variable id
uint64_t evalExpr(E e, const Model& m);
std::string showExpr(E e, int depth = 6);
size_t exprCount();
