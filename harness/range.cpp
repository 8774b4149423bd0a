// Range and initializer_list construction, assignment and insertion: the result depends on the
// sequence of source elements only, not on the iterator category, the source's element type or
// the storage state of the container.
#ifdef KK
#include "seq.h"
#else
#include "flat.h"
#endif
using namespace hx;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef SLK
#define SLK 2
#endif
#ifndef KMAX
#define KMAX 4
#endif
#ifdef KK
const Kind K = Kind(KK);
template <class T> void rng() {
  typedef seq_t<K, T, Alloc<T, 0>> C; constexpr bool cp = std::is_copy_constructible_v<T>;
  {
    const u32 what = (u32)sx_range("op", 0, 2), cat = (u32)pick("cat", 0, 6);
    C a; Seq m; if (what) build<K>(a, m, shape<K>(SLK, NMAX, SLK));
    u32 room = K == STATIC ? STATIC_N - (what == 1 ? m.n : 0) : 100; Src s = src("k", 0, room < KMAX ? room : KMAX);
    const u32 p = what == 1 ? (u32)pick("p", 0, m.n) : 0;
    Buf<T> b(s); u32 pos = 0;
    auto go = [&](auto f, auto l) {
      if (what == 0) { C c(f, l); m.set(s.n, s.x); all_observers(c, m); obs_seq(c); if constexpr (K != STATIC) { } sx_reach("ctor"); }
      else if (what == 1) { auto r = a.insert(a.begin() + p, f, l); m.ins(p, s.n, s.x); CHECK(r == a.nth(p), "insert(pos, range) return value"); sx_reach("insert"); }
      else { a.assign(f, l); m.set(s.n, s.x); sx_reach("assign"); }
    };
    if constexpr (cp) switch (cat) {
      case 0: go(InIt<T>(b.b(), &pos), InIt<T>(b.e(), &pos)); break;
      case 1: go(FwIt<T>(b.b()), FwIt<T>(b.e())); break;
      case 2: go(BiIt<T>(b.b()), BiIt<T>(b.e())); break;
      case 3: go(b.b(), b.e()); break;
      case 4: go(s.x, s.x + s.n); break;                       // elements are converted
      case 5: go(InIt<u32>(s.x, &pos), InIt<u32>(s.x + s.n, &pos)); break;
      case 6: { std::initializer_list<T> il = {}; std::initializer_list<T> i1 = {T(s.n > 0 ? s.x[0] : 0)}; std::initializer_list<T> i3 = {T(s.n > 0 ? s.x[0] : 0), T(s.n > 1 ? s.x[1] : 0), T(s.n > 2 ? s.x[2] : 0)};
        if (s.n == 2 || s.n > 3) return; auto& l = s.n == 0 ? il : s.n == 1 ? i1 : i3;
        if (what == 0) { C c(l); m.set(s.n, s.x); all_observers(c, m); C d = l; same1(d, m); } else if (what == 1) { auto r = a.insert(a.cbegin() + p, l); m.ins(p, s.n, s.x); CHECK(r == a.nth(p), "insert(pos, ilist) return value"); } else if (pick("eq", 0, 1)) { a = l; m.set(s.n, s.x); } else { a.assign(l); m.set(s.n, s.x); }
        sx_reach("ilist"); break; }
    } else { if (cat == 0) go(std::make_move_iterator(b.at(0)), std::make_move_iterator(b.at(0) + s.n)); else if (cat == 1) go(s.x, s.x + s.n); else if (cat == 2) go(InIt<u32>(s.x, &pos), InIt<u32>(s.x + s.n, &pos)); else return; }
    if (cp) for (u32 i = 0; i < s.n; i++) CHECK(val(*b.at(i)) == s.x[i], "a range operation changed its source");
    if (what) all_observers(a, m); obs_seq(a);
  }
  all_returned(); obs_mon();
}
// construction from counts and from nothing
template <class T> void cnt() {
  typedef seq_t<K, T, Alloc<T, 0>> C; constexpr bool cp = std::is_copy_constructible_v<T>;
  {
    const u32 what = (u32)sx_range("op", 0, 4); const u32 k = (u32)pick("k", 0, STATIC_N), x = sx_u32("x"); Seq m;
    switch (what) {
      case 0: { C c; same(c, m); obs_seq(c); sx_reach("ctor()"); break; }
      case 1: { C c((usz)k); m.fill(0, k, defval<T>()); all_observers(c, m); obs_seq(c); if constexpr (K == STATIC) { C d((usz)k, sfl::default_init_t()); CHECK(d.size() == k, "size() after ctor(n, default_init)"); if constexpr (!is_tracked<T>::value) for (u32 i = 0; i < k; i++) d[i] = T(); all_observers(d, m); } sx_reach("ctor(n)"); break; }
      case 2: if constexpr (cp) { const T t(x); C c((usz)k, t); m.fill(0, k, x); all_observers(c, m); obs_seq(c); sx_reach("ctor(n,value)"); } break;
      case 3: if constexpr (has_alloc<K>) { C c((usz)k, Alloc<T, 0>(3)); m.fill(0, k, defval<T>()); all_observers(c, m); CHECK(c.get_allocator().id == 3, "allocator of the constructor"); obs_seq(c); sx_reach("ctor(n,alloc)"); } break;
      case 4: if constexpr (has_alloc<K> && cp) { const T t(x); C c((usz)k, t, Alloc<T, 0>(3)); m.fill(0, k, x); all_observers(c, m); CHECK(c.get_allocator().id == 3, "allocator of the constructor"); obs_seq(c); sx_reach("ctor(n,value,alloc)"); } break;
    }
  }
  all_returned(); obs_mon();
}
extern "C" void rng_EN() { rng<EN>(); }
extern "C" void rng_u32() { rng<u32>(); }
extern "C" void rng_EM() { rng<EM>(); }
extern "C" void cnt_EN() { cnt<EN>(); }
extern "C" void cnt_u32() { cnt<u32>(); }
extern "C" void cnt_EM() { cnt<EM>(); }
#else
template <class F> void rng() {
  typedef typename F::type C; typedef typename F::value V; typedef typename F::cmp Cm_; constexpr bool cp = std::is_copy_constructible_v<V>;
  {
    const u32 what = (u32)sx_range("op", 0, 7), cat = (u32)pick("cat", 0, 4), dir = F::unord ? 0 : (u32)pick("dir", 0, 1);
    Fm m; m.dir = dir; m.id = 55; C a{Cm_(dir, 55)};
    if (what == 4) fbuild<F>(a, m, fshape<F>(NMAX, SLK));
    if (what == 5) fbuild<F>(a, m, fshape<F>(2, 1));
    const u32 room = F::stat ? STATIC_N - (what == 4 ? m.n : 0) : 100; const u32 kk = (u32)pick("k", 0, room < KMAX ? room : KMAX);
    alignas(V) unsigned char buf[sizeof(V) * 8]; V* b = reinterpret_cast<V*>(buf); Ent es[8]; u32 bn = 0, pos = 0;
    struct R { V* b; u32& n; ~R() { while (n) b[--n].~V(); } } rr{b, bn};
    for (; bn < kk; bn++) { es[bn] = fresh_ent(); ::new ((void*)(b + bn)) V(mk<F>(es[bn])); }
    auto add = [&](Fm& w) { for (u32 i = 0; i < kk; i++) if (F::multi || w.find(es[i].k) < 0) w.add(es[i]); };
    auto fin = [&](C& c, Fm& w, const char* l) { fobservers<F>(c, w); fobs<F>(c); sx_reach(l); };
    auto go = [&](auto f, auto l) {
      Fm w;
      switch (what) {
        case 0: if (dir) return; { C c(f, l); w.dir = 0; w.id = 0; add(w); fin(c, w, "ctor(range)"); } break;
        case 1: { C c(f, l, Cm_(dir, 7)); w.dir = dir; w.id = 7; add(w); fin(c, w, "ctor(range,comp)"); } break;
        case 2: if constexpr (!F::stat) { if (dir) return; C c(f, l, typename C::allocator_type(3)); add(w); fin(c, w, "ctor(range,alloc)"); CHECK(c.get_allocator().id == 3, "allocator of the constructor"); } break;
        case 3: if constexpr (!F::stat) { C c(f, l, Cm_(dir, 7), typename C::allocator_type(3)); w.dir = dir; w.id = 7; add(w); fin(c, w, "ctor(range,comp,alloc)"); CHECK(c.get_allocator().id == 3, "allocator of the constructor"); } break;
        case 4: a.insert(f, l); add(m); fin(a, m, "insert(range)"); break;
        default: return;
      }
    };
    auto il = [&](auto x) {
      Fm w;
      switch (what) {
        case 0: if (dir) return; { C c(x); add(w); fin(c, w, "ctor(ilist)"); } break;
        case 1: { C c(x, Cm_(dir, 7)); w.dir = dir; w.id = 7; add(w); fin(c, w, "ctor(ilist,comp)"); } break;
        case 2: if constexpr (!F::stat) { if (dir) return; C c(x, typename C::allocator_type(3)); add(w); fin(c, w, "ctor(ilist,alloc)"); CHECK(c.get_allocator().id == 3, "allocator of the constructor"); } break;
        case 3: if constexpr (!F::stat) { C c(x, Cm_(dir, 7), typename C::allocator_type(3)); w.dir = dir; w.id = 7; add(w); fin(c, w, "ctor(ilist,comp,alloc)"); CHECK(c.get_allocator().id == 3, "allocator of the constructor"); } break;
        case 4: a.insert(x); add(m); fin(a, m, "insert(ilist)"); break;
        case 5: a = x; m.n = 0; add(m); fin(a, m, "operator=(ilist)"); break;
        case 6: { C c; fsame<F>(c, w); C d{Cm_(dir, 7)}; w.dir = dir; w.id = 7; fin(d, w, "ctor(comp)"); break; }
        default: return;
      }
    };
    if constexpr (cp) switch (cat) {
      case 0: go(InIt<V>(b, &pos), InIt<V>(b + kk, &pos)); break;
      case 1: go(FwIt<V>(b), FwIt<V>(b + kk)); break;
      case 2: go(BiIt<V>(b), BiIt<V>(b + kk)); break;
      case 3: go((const V*)b, (const V*)b + kk); break;
      case 4: if (kk == 0) il(std::initializer_list<V>{}); else if (kk == 1) il(std::initializer_list<V>{b[0]}); else if (kk == 2) il(std::initializer_list<V>{b[0], b[1]}); else if (kk == 3) il(std::initializer_list<V>{b[0], b[1], b[2]}); else il(std::initializer_list<V>{b[0], b[1], b[2], b[3]}); break;
    } else { if (cat == 0) go(std::make_move_iterator(b), std::make_move_iterator(b + kk)); else return; }
    if (cp) for (u32 i = 0; i < kk; i++) CHECK(tagof(keyof(b[i])) == es[i].t && val(keyof(b[i])) == es[i].k && mapval(b[i]) == (F::map ? es[i].m : 0), "a range operation changed its source");
  }
  all_returned();
}
extern "C" void rng_EN() { rng<Fam<FK, EN, EN, 0, Alloc<u32, 0>>>(); }
extern "C" void rng_tv() { rng<Fam<FK, Triv, u32, 0, Alloc<u32, 0>>>(); }
extern "C" void rng_EM() { rng<Fam<FK, EM, EM, 0, Alloc<u32, 0>>>(); }
#endif
