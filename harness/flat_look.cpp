// Lookup: find, count, contains, lower_bound, upper_bound, equal_range, at, [] over an arbitrary
// state and an arbitrary key, through const, non-const and heterogeneous overloads.
#include "flat.h"
using namespace hx;
#ifndef NMAX
#define NMAX 5
#endif
template <class F> void look(u32 nmax) {
  typedef typename F::type C; typedef typename F::key K;
  {
    Fm m; m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55;
    C c{typename F::cmp(m.dir, m.id)};
    fbuild<F>(c, m, fshape<F>(nmax, 1));
    const C& k = c;
    u32 q = sx_u32("q"); const K key(q); Probe p{q, 0};
    u32 before = 0, cnt = 0;   // elements ordered before q / equivalent to q
    for (u32 i = 0; i < m.n; i++) { if (sx_conc(m.e[i].k == q)) cnt++; else if (!F::unord && sx_conc(m.dir ? m.e[i].k > q : m.e[i].k < q)) before++; }
    u32 what = (u32)sx_range("op", 0, 11);
    auto check = [&](auto& x, const auto& y, const char* w) {
      auto idx = [&](auto it) { return u32(it - x.begin()); };
      switch (what) {
        case 0: case 1: { auto it = x.find(y); CHECK((it == x.end()) == (cnt == 0), "find() finds an element iff there is one"); if (cnt) { CHECK(x.begin() <= it && it < x.end(), "find() result outside the container"); CHECK(val(keyof(*it)) == q, "find() returns an element with another key"); } sx_reach("find"); sx_reach(w); break; }
        case 2: CHECK(x.count(y) == cnt, "count()"); sx_reach("count"); break;
        case 3: CHECK(x.contains(y) == (cnt != 0), "contains()"); sx_reach("contains"); break;
        case 4: if constexpr (!F::unord) { auto it = x.lower_bound(y); CHECK(idx(it) == before, "lower_bound()"); sx_reach("lower_bound"); } break;
        case 5: if constexpr (!F::unord) { auto it = x.upper_bound(y); CHECK(idx(it) == before + cnt, "upper_bound()"); sx_reach("upper_bound"); } break;
        case 6: if constexpr (!F::unord) { auto r = x.equal_range(y); CHECK(idx(r.first) == before && idx(r.second) == before + cnt, "equal_range()"); sx_reach("equal_range"); } break;
        default: break;
      }
    };
    if (what < 7) {
      u32 how = (u32)pick("how", 0, 3);
      if (how == 0) check(c, key, "non-const"); else if (how == 1) check(k, key, "const");
      else if constexpr (requires { c.find(p); }) { if (how == 2) check(c, p, "heterogeneous"); else check(k, p, "heterogeneous const"); }
    } else if (what == 7) {   // key/value comparison objects order keys like the container
      u32 a = sx_u32("a"), b = sx_u32("b"); const K ka(a), kb(b);
      if constexpr (F::unord) { CHECK(c.key_eq()(ka, kb) == (a == b), "key_eq()"); if constexpr (F::map) { typename F::value va(a, 1), vb(b, 2); CHECK(c.value_eq()(va, vb) == (a == b), "value_eq()"); } }
      else { bool lt = m.dir ? b < a : a < b; CHECK(c.key_comp()(ka, kb) == lt, "key_comp()"); if constexpr (F::map) { typename F::value va(a, 1), vb(b, 2); CHECK(c.value_comp()(va, vb) == lt, "value_comp()"); } else CHECK(c.value_comp()(ka, kb) == lt, "value_comp()"); }
      sx_reach("comparison objects");
    } else if constexpr (F::map && !F::multi) {
      int i = -1; for (u32 j = 0; j < m.n; j++) if (sx_conc(m.e[j].k == q)) i = (int)j; const typename F::mapped* r = nullptr; bool out = false;
      try {
        if (what == 8) r = AD %c.at(key); else if (what == 9) r = AD %k.at(key);
        else if constexpr (requires { c.at(p); }) { if (what == 10) r = AD %c.at(p); else r = AD %k.at(p); } else { r = AD %k.at(key); }
      } catch (const std::out_of_range&) { out = true; }
      CHECK(out == (i < 0), "at() throws std::out_of_range iff the key is missing");
      if (!out) CHECK(val(*r) == m.e[i].m && r == AD %c.find(key)->second, "at() refers to another value");
      sx_reach("at");
    }
    fsame<F>(c, m);
    fobs<F>(c);
  }
  all_returned();
}
extern "C" void look_EN() { look<Fam<FK, EN, EN, 0, Alloc<u32, 0>>>(NMAX); }
extern "C" void look_tr() { look<Fam<FK, EN, EN, CM_TRANSP, Alloc<u32, 0>>>(NMAX); }
extern "C" void look_u32() { look<Fam<FK, Triv, u32, CM_TRANSP, Alloc<u32, 0>>>(NMAX); }
