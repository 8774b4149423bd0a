// Relational operators against their definition on the abstract values.
#ifdef KK
#include "seq.h"
#else
#include "flat.h"
#endif
using namespace hx;
#ifndef NMAX
#define NMAX 3
#endif
#ifdef KK
template <Kind K, class T, u32 NX> void cmp() {
  {
    typedef seq_t<K, T, Alloc<T, 0>> C;
    C a, b; Seq m, w; build<K>(a, m, shape<K>(1, NX, 1)); build<K>(b, w, shape<K>(1, NX, 1));
    const C& x = a; const C& y = b;
    bool eq = m.n == w.n, lt = false, dec = false;
    for (u32 i = 0; i < m.n && i < w.n; i++) { if (m.a[i] != w.a[i]) eq = false; if (!dec && m.a[i] != w.a[i]) { dec = true; lt = m.a[i] < w.a[i]; } }
    if (!dec) lt = m.n < w.n;
    u32 op = (u32)sx_range("op", 0, 6);
    switch (op) {
      case 0: CHECK((x == y) == eq, "operator=="); break; case 1: CHECK((x != y) == !eq, "operator!="); break;
      case 2: CHECK((x < y) == lt, "operator<"); break; case 3: CHECK((x <= y) == (lt || eq), "operator<="); break;
      case 4: CHECK((x > y) == (!lt && !eq), "operator>"); break; case 5: CHECK((x >= y) == !lt, "operator>="); break;
      case 6: CHECK(x == x && !(x != x) && !(x < x) && x <= x && x >= x && !(x > x), "comparison with itself"); break;
    }
    sx_reach(eq ? "equal" : lt ? "less" : "greater");
    same1(a, m); same1(b, w); obs_seq(a);
  }
  all_returned();
}
extern "C" void cmp_EN() { cmp<Kind(KK), EN, NMAX>(); }
extern "C" void cmp_u32() { cmp<Kind(KK), u32, NMAX>(); }
#else
template <class F> void cmp() {
  {
    typedef typename F::type C; C a{typename F::cmp(0, 55)}, b{typename F::cmp(0, 55)}; Fm m, w; m.id = w.id = 55;
    fbuild<F>(a, m, fshape<F>(NMAX, 0)); fbuild<F>(b, w, fshape<F>(NMAX, 1));
    const C& x = a; const C& y = b;
    // the order of equivalent elements is the container's choice: take it from iteration
    auto reorder = [](C& c, Fm& m) { if (F::multi && !F::unord) { Fm r = m; u32 i = 0; for (auto& v : c) r.e[i++] = m.e[m.by_tag(tagof(keyof(v)))]; m = r; } };
    reorder(a, m); reorder(b, w);
    u32 op = (u32)sx_range("op", 0, 6);
    if constexpr (F::unord) {
      // equal iff the multisets of (key, mapped value) are equal
      bool eq = m.n == w.n;
      for (u32 i = 0; i < m.n; i++) { u32 p = 0, q = 0; for (u32 j = 0; j < m.n; j++) p += m.e[i].k == m.e[j].k && (!F::map || m.e[i].m == m.e[j].m); for (u32 j = 0; j < w.n; j++) q += m.e[i].k == w.e[j].k && (!F::map || m.e[i].m == w.e[j].m); eq = eq & (p == q); }
      if (op == 0) CHECK((x == y) == eq, "operator=="); else if (op == 1) CHECK((x != y) == !eq, "operator!="); else if (op == 2) CHECK(x == x && !(x != x), "comparison with itself"); else CHECK((y == x) == eq, "operator== is not symmetric");
      sx_reach(eq ? "equal" : "different");
    } else {
      bool eq = m.n == w.n, lt = false, dec = false;
      auto ke = [](const Fm& m, u32 i) { return (u64)m.e[i].k << 32 | (F::map ? m.e[i].m : 0); };
      for (u32 i = 0; i < m.n && i < w.n; i++) if (!dec && ke(m, i) != ke(w, i)) { eq = false; dec = true; lt = ke(m, i) < ke(w, i); }
      if (!dec) lt = m.n < w.n;
      switch (op) {
        case 0: CHECK((x == y) == eq, "operator=="); break; case 1: CHECK((x != y) == !eq, "operator!="); break;
        case 2: CHECK((x < y) == lt, "operator<"); break; case 3: CHECK((x <= y) == (lt || eq), "operator<="); break;
        case 4: CHECK((x > y) == (!lt && !eq), "operator>"); break; case 5: CHECK((x >= y) == !lt, "operator>="); break;
        case 6: CHECK(x == x && !(x != x) && !(x < x) && x <= x && x >= x && !(x > x), "comparison with itself"); break;
      }
      sx_reach(eq ? "equal" : lt ? "less" : "greater");
    }
    fobs<F>(a);
  }
  all_returned();
}
extern "C" void cmp_EN() { cmp<Fam<FK, EN, EN, 0, Alloc<u32, 0>>>(); }
extern "C" void cmp_u32() { cmp<Fam<FK, Triv, u32, 0, Alloc<u32, 0>>>(); }
#endif
