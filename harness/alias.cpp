// Arguments that refer into the container itself.
#ifdef KK
#include "seq.h"
using namespace hx;
#ifndef NMAX
#define NMAX 4
#endif
#ifndef SLK
#define SLK 2
#endif
template <Kind K, class T> void alias() {
  {
    seq_t<K, T, Alloc<T, 0>> c; Seq m; const u32 op = (u32)sx_range("op", 0, 15);
    build<K>(c, m, shape<K>(SLK, NMAX, SLK));
    const u32 n = m.n; if (!n) return;
    const u32 room = K == STATIC ? (u32)STATIC_N - n : 100; const u32 kmax = room < 3 ? room : 3;
    const u32 i = (u32)pick("i", 0, n - 1), x = m.a[i]; const T& r = c[i];
    auto pos = [&] { return (u32)pick("p", 0, n); }; auto cnt = [&] { return (u32)pick("k", 0, kmax); };
    switch (op) {
      case 0: if (room) { c.push_back(r); m.push(x); sx_reach("push_back"); } break;
      case 1: if (room) { c.emplace_back(r); m.push(x); sx_reach("emplace_back"); } break;
      case 2: if (room) { u32 p = pos(); auto it = c.insert(c.begin() + p, r); m.ins1(p, x); CHECK(it == c.nth(p), "insert return value"); sx_reach("insert"); } break;
      case 3: if (room) { u32 p = pos(); auto it = c.emplace(c.begin() + p, r); m.ins1(p, x); CHECK(it == c.nth(p), "emplace return value"); sx_reach("emplace"); } break;
      case 4: { u32 p = pos(), k = cnt(); auto it = c.insert(c.begin() + p, usz(k), r); m.fill(p, k, x); CHECK(it == c.nth(p), "insert return value"); sx_reach("insert n"); break; }
      case 5: { u32 k = (u32)pick("k", 0, n + kmax); c.resize(k, r); if (k < n) m.n = k; else grown<K>(c, m, k, x); sx_reach("resize"); break; }

      case 7: if constexpr (two_ended<K>) { c.push_front(r); m.ins1(0, x); sx_reach("push_front"); } break;
      case 8: if constexpr (two_ended<K>) { c.emplace_front(r); m.ins1(0, x); sx_reach("emplace_front"); } break;
      case 9: if constexpr (two_ended<K>) { u32 k = (u32)pick("k", 0, n + 3); c.resize_front(k, r); if (k < n) m.del(0, n - k); else m.fill(0, k - n, x); sx_reach("resize_front"); } break;
      case 10: if constexpr (two_ended<K>) { u32 k = (u32)pick("k", 0, n + 3); c.resize_back(k, r); if (k < n) m.n = k; else m.fill(n, k - n, x); sx_reach("resize_back"); } break;
      case 11: { auto& s = c; c = s; sx_reach("self copy assignment"); break; }
      case 12: { auto& s = c; c.swap(s); using std::swap; swap(c, s); sx_reach("self swap"); break; }
      case 13: { auto& s = c; c = std::move(s); valid(c); c.clear(); m.n = 0; c.emplace_back(5); m.push(5); sx_reach("self move assignment"); break; }
      case 14: { if (!room) break; u32 p = pos(); const T* q = AD %c[i]; auto it = c.emplace(c.begin() + p, *q); m.ins1(p, x); CHECK(it == c.begin() + p, "emplace return value"); sx_reach("emplace 2"); break; }
      case 15: if (room) { if constexpr (is_tracked<T>::value) { u32 p = pos(); if (p != n) break; c.push_back(std::move(c[i])); CHECK(val(c.back()) == x, "push_back(move(own element))"); setv(c[i], 9); m.a[i] = 9; m.push(x); sx_reach("push_back(move)"); } } break;
    }
    same1(c, m); obs_seq(c);
  }
  all_returned(); obs_mon();
}
extern "C" void alias_EN() { alias<Kind(KK), EN>(); }
extern "C" void alias_EC() { alias<Kind(KK), EC>(); }
extern "C" void alias_u32() { alias<Kind(KK), u32>(); }
#else
#include "flat.h"
using namespace hx;
#ifndef NMAX
#define NMAX 4
#endif
template <class F> void alias() {
  typedef typename F::type C; typedef typename F::value V; typedef typename F::mapped M_;
  {
    Fm m; m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55; u32 op = (u32)sx_range("op", 0, 17);
    C c{typename F::cmp(m.dir, m.id)}; fbuild<F>(c, m, fshape<F>(NMAX, 1));
    const u32 n = m.n; if (!n) return;
    const u32 p = (u32)pick("i", 0, n - 1); const bool room = !F::stat || n < STATIC_N;
    const V& v = *c.nth(p); const auto& k = keyof(v); const int j = m.by_tag(tagof(k)); const Ent own = m.e[j];
    // a copied element keeps its identity tag, so inserted copies are told apart by count
    auto added = [&](bool ins) { if (!ins) { fsame<F>(c, m); return; }
      CHECK(c.size() == n + 1, "insertion of an own element"); u32 same = 0; const C& cc = c; usz at = 0;
      for (auto it = cc.begin(); it != cc.end(); ++it, ++at) { CHECK(valive(*it), "element is not alive"); if (tagof(keyof(*it)) == own.t) { same++; CHECK(val(keyof(*it)) == own.k && mapval(*it) == (F::map ? own.m : 0), "copy differs from the own element it was made from"); if (same == 2) break; } }
      CHECK(same == 2, "insertion of an own element"); c.erase(cc.begin() + at); fsame<F>(c, m); };
    auto chk = [&](auto r) { if constexpr (requires { r.second; }) { CHECK(!r.second && AD %*r.first == AD %*c.nth(p), "insertion of an own element"); added(false); } else { CHECK(val(keyof(*r)) == own.k, "insertion returns another element"); added(F::multi); } };
    u32 h = (op >= 2 && op <= 4) || op == 14 || op == 15 ? (u32)pick("h", 0, n) : 0;
    switch (op) {
      case 0: if (room) { chk(c.insert(v)); sx_reach("insert"); } break;
      case 1: if (room) { chk(c.emplace(v)); sx_reach("emplace"); } break;
      case 2: if (room) { auto r = c.insert(c.cbegin() + h, v); chk(r); sx_reach("insert(hint)"); } break;
      case 3: if (room) { auto r = c.emplace_hint(c.cbegin() + h, v); chk(r); sx_reach("emplace_hint"); } break;
      case 4: break;
      case 5: if (F::unord && F::multi) break; else { u32 w = m.count(own.k); usz r = c.erase(k); CHECK(r == w, "erase(key of an own element) return value"); for (u32 i = n; i-- > 0;) if (m.e[i].k == own.k) m.del(i); fsame<F>(c, m); sx_reach("erase(own key)"); break; }
      case 6: { auto it = c.find(k); CHECK(val(keyof(*it)) == own.k, "find(own key)"); CHECK(c.contains(k) && c.count(k) == m.count(own.k), "count(own key)"); fsame<F>(c, m); sx_reach("find(own key)"); break; }
      case 7: if constexpr (F::map && !F::multi) { if (room) { M_& r = c[k]; CHECK(AD %r == AD %c.nth(p)->second, "operator[](own key)"); fsame<F>(c, m); sx_reach("operator[]"); } } break;
      case 8: if constexpr (F::map && !F::multi) { if (room) { auto r = c.try_emplace(k, v.second); CHECK(!r.second && r.first == c.nth(p), "try_emplace(own key)"); fsame<F>(c, m); sx_reach("try_emplace(own key)"); } } break;
      case 9: if constexpr (F::map && !F::multi) { if (room) { u32 q = (u32)pick("q", 0, n - 1); int jj = m.by_tag(tagof(c.nth(q)->first)); auto r = c.insert_or_assign(k, c.nth(q)->second); CHECK(!r.second && r.first == c.nth(p), "insert_or_assign(own key)"); m.e[j].m = m.e[jj].m; fsame<F>(c, m); sx_reach("insert_or_assign(own key)"); } } break;
      case 10: if constexpr (F::map && !F::multi) { if (room) { Ent e = fresh_ent(); int i = m.find(e.k); const typename F::key nk(e.k, e.t); auto r = c.try_emplace(nk, v.second); CHECK(r.second == (i < 0), "try_emplace(own value)"); if (i < 0) { e.m = own.m; m.add(e); } fsame<F>(c, m); sx_reach("try_emplace(own value)"); } } break;
      case 11: if constexpr (F::map && !F::multi) { if (room) { Ent e = fresh_ent(); int i = m.find(e.k); const typename F::key nk(e.k, e.t); auto r = c.insert_or_assign(nk, v.second); CHECK(r.second == (i < 0), "insert_or_assign(own value)"); if (i < 0) { e.m = own.m; m.add(e); } else m.e[i].m = own.m; fsame<F>(c, m); sx_reach("insert_or_assign(own value)"); } } break;
      case 12: { auto& s = c; c = s; fsame<F>(c, m); sx_reach("self copy assignment"); break; }
      case 13: { auto& s = c; c.swap(s); using std::swap; swap(c, s); fsame<F>(c, m); sx_reach("self swap"); break; }
      case 14: if constexpr (F::map && !F::multi) { if (room) { auto r = c.try_emplace(c.cbegin() + h, k, v.second); CHECK(r == c.nth(p), "try_emplace(hint,own key)"); fsame<F>(c, m); sx_reach("try_emplace(hint,own key)"); } } break;
      case 15: if constexpr (F::map && !F::multi) { if (room) { auto r = c.insert_or_assign(c.cbegin() + h, k, v.second); CHECK(r == c.nth(p), "insert_or_assign(hint,own key)"); fsame<F>(c, m); sx_reach("insert_or_assign(hint,own key)"); } } break;
      case 16: { auto& s = c; c = std::move(s); fvalid<F>(c); c.clear(); m.n = 0; fsame<F>(c, m); sx_reach("self move assignment"); break; }
      case 17: if constexpr (F::map && F::multi) { if (room) { auto r = c.emplace(k, v.second); chk(r); sx_reach("emplace(own key, own value)"); } } break;
    }
    fobs<F>(c);
  }
  all_returned();
}
// erase(key) of an unordered multi container with a key that lives in the container
template <class F> void erase_own() {
  {
    Fm m; m.id = 55; typename F::type c{typename F::cmp(0, m.id)}; fbuild<F>(c, m, fshape<F>(3, 1));
    const u32 n = m.n; if (!n) return;
    const auto& k = keyof(*c.nth((u32)pick("i", 0, n - 1))); const u32 q = val(k); u32 w = 0;
    for (u32 i = n; i-- > 0;) if (m.e[i].k == q) { m.del(i); w++; }
    usz r = c.erase(k);
    CHECK(r == w, "erase(key of an own element) return value");
    fsame<F>(c, m); sx_reach("erase(own key)");
  }
  all_returned();
}
#if FK == 6 || FK == 7 || FK == 14 || FK == 15
extern "C" void erase_own() { erase_own<Fam<FK, EN, EN, 0, Alloc<u32, 0>>>(); }
extern "C" void erase_own_u32() { erase_own<Fam<FK, Triv, u32, 0, Alloc<u32, 0>>>(); }
#endif
extern "C" void alias_EN() { alias<Fam<FK, EN, EN, CM_TRANSP, Alloc<u32, 0>>>(); }
extern "C" void alias_EC() { alias<Fam<FK, EC, EC, 0, Alloc<u32, 0>>>(); }
extern "C" void alias_u32() { alias<Fam<FK, Triv, u32, 0, Alloc<u32, 0>>>(); }
#endif
