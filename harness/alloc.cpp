// Allocator contract: which allocator a container ends up with, through which allocator memory
// and elements come and go, for every combination of the propagation traits.
#ifdef KK
#include "seq.h"
#else
#include "flat.h"
#endif
using namespace hx;
#ifndef ANMAX
#define ANMAX 3
#endif
#ifdef KK
template <class T, int P> struct X {
  typedef Alloc<T, P> A; typedef seq_t<Kind(KK), T, A> C; typedef Seq M; typedef T V;
  static constexpr long per = 1;
  static C make(u32 id) { return C(A(id)); }
  static void fill(C& c, M& m) { build<Kind(KK)>(c, m, shape<Kind(KK)>(1, ANMAX, 1)); }
  static void eq(C& c, const M& m) { same1(c, m); }
  static void more(C& c, M& m) { u32 x = sx_u32("x"); c.emplace_back(x); m.push(x); x = sx_u32("x"); c.emplace(c.begin(), x); m.ins1(0, x); }
  static V val1(u32 x) { return T(x); }
  static C range(const V* b, const V* e, A a) { return C(b, e, a); }
  static void range_m(M& m, u32 n, const u32* x) { m.set(n, x); }
};
#else
template <class T, int P> struct X {
  typedef Fam<FK, T, T, 0, Alloc<u32, P>> F; typedef typename F::type C; typedef typename C::allocator_type A; typedef Fm M; typedef typename F::value V;
  static constexpr long per = F::map ? 2 : 1;
  static C make(u32 id) { return C(typename F::cmp(0, id + 500), A(id)); }
  static void fill(C& c, M& m) { m.id = c.get_allocator().id + 500; fbuild<F>(c, m, fshape<F>(ANMAX, 1)); }
  static void eq(C& c, const M& m) { fsame<F>(c, m); }
  static void more(C& c, M& m) { Ent e = fresh_ent(); if constexpr (F::map) c.emplace(std::piecewise_construct, std::forward_as_tuple(e.k, e.t), std::forward_as_tuple(e.m)); else c.emplace(e.k, e.t); if (F::multi || m.find(e.k) < 0) m.add(e); }
};
#endif
// equal allocators are interchangeable
template <int P, class C> bool same_id(const C& c, u32 id) { return (P & ALWAYS_EQ) || c.get_allocator().id == id; }
template <class T, int P> void alloc() {
  typedef X<T, P> H; typedef typename H::C C; typedef typename H::A A; typedef typename H::M M;
  constexpr bool cp = std::is_copy_constructible_v<T>;
  {
    u32 id1 = (u32)pick("id1", 1, 2), id2 = (u32)pick("id2", 1, 2), op = (u32)sx_range("op", 0, 9);
    C a = H::make(id1); M m; H::fill(a, m);
    CHECK(same_id<P>(a, id1), "get_allocator()");
    const bool eq = id1 == id2 || (P & ALWAYS_EQ);
    auto hooked = [&](long n) { if (P & HOOK) CHECK(g.live_by_alloc == n * H::per, "elements are not constructed/destroyed through the allocator"); };
    hooked(a.size());
    u32 c0 = g.copies + g.cassigns;
    switch (op) {
      case 0: if constexpr (cp) { C b(a); CHECK(same_id<P>(b, (P & SELECT ? id1 + 100 : id1)), "copy construction: select_on_container_copy_construction"); H::eq(b, m); H::eq(a, m); hooked(2 * a.size()); M n = m; H::more(b, n); H::eq(b, n); H::eq(a, m); sx_reach("copy ctor"); } break;
      case 1: if constexpr (cp) { C b(a, A(id2)); CHECK(same_id<P>(b, id2), "copy construction with an allocator"); H::eq(b, m); H::eq(a, m); hooked(2 * a.size()); M n = m; H::more(b, n); H::eq(b, n); sx_reach("copy ctor(alloc)"); } break;
      case 2: { C b(std::move(a)); CHECK(same_id<P>(b, id1), "move construction takes over the allocator"); H::eq(b, m); hooked(b.size() + a.size()); CHECK(g.copies + g.cassigns == c0, "move construction copies elements"); H::more(b, m); H::eq(b, m); sx_reach("move ctor"); break; }
      case 3: { C b(std::move(a), A(id2)); CHECK(same_id<P>(b, id2), "move construction with an allocator"); H::eq(b, m); hooked(b.size() + a.size()); CHECK(g.copies + g.cassigns == c0, "move construction copies elements"); H::more(b, m); H::eq(b, m); sx_reach("move ctor(alloc)"); break; }
      case 4: if constexpr (cp) { C b = H::make(id2); M w; H::fill(b, w); C& r = (a = b); CHECK(AD %r == &a, "copy assignment return value"); CHECK(same_id<P>(a, (P & POCCA ? id2 : id1)), "copy assignment: propagate_on_container_copy_assignment"); CHECK(same_id<P>(b, id2), "copy assignment changed the source"); H::eq(a, w); H::eq(b, w); hooked(a.size() + b.size()); H::more(a, w); H::eq(a, w); sx_reach("copy assignment"); } break;
      case 5: { C b = H::make(id2); M w; H::fill(b, w); u32 cc = g.copies + g.cassigns; C& r = (a = std::move(b)); CHECK(AD %r == &a, "move assignment return value"); CHECK(same_id<P>(a, (P & POCMA ? id2 : id1)), "move assignment: propagate_on_container_move_assignment"); H::eq(a, w); hooked(a.size() + b.size()); CHECK(g.copies + g.cassigns == cc, "move assignment copies elements"); H::more(a, w); H::eq(a, w); b.clear(); sx_reach("move assignment"); break; }
      case 6: case 7: { if (!eq && !(P & POCS)) return; C b = H::make(id2); M w; H::fill(b, w); if (op == 6) a.swap(b); else { using std::swap; swap(a, b); }
        CHECK(same_id<P>(a, (P & POCS ? id2 : id1)) && same_id<P>(b, (P & POCS ? id1 : id2)), "swap: propagate_on_container_swap"); H::eq(a, w); H::eq(b, m); hooked(a.size() + b.size()); H::more(a, w); H::eq(a, w); H::more(b, m); H::eq(b, m); sx_reach("swap"); break; }
      case 8: { C b = H::make(id2); M w; H::fill(b, w); if constexpr (requires { b.shrink_to_fit(); }) { b.shrink_to_fit(); a.shrink_to_fit(); } H::more(a, m); H::eq(a, m); H::eq(b, w); a.clear(); hooked(b.size()); sx_reach("grow"); break; }
      case 9: { C b((A(id2))); CHECK(same_id<P>(b, id2) && b.empty(), "construction with an allocator"); C d; CHECK(same_id<P>(d, 0), "default construction"); M w; 
#ifdef KK
        H::more(b, w); H::eq(b, w); if constexpr (cp) { const T* n = nullptr; C f(n, n, A(id2)); CHECK(same_id<P>(f, id2) && f.empty(), "construction with an allocator"); C h(usz(2), T(5), A(id1)); CHECK(same_id<P>(h, id1) && h.size() == 2 && val(h[0]) == 5 && val(h[1]) == 5, "construction with an allocator"); C i({T(1), T(2)}, A(id2)); CHECK(same_id<P>(i, id2) && i.size() == 2 && val(i[1]) == 2, "construction with an allocator"); hooked(a.size() + b.size() + h.size() + i.size()); }
        { C z(usz(2), A(id2)); CHECK(same_id<P>(z, id2) && z.size() == 2 && val(z[0]) == DEFV, "construction with an allocator"); }
#else
        typedef typename H::F::cmp Cm_; typedef typename H::V V; w.id = 7; C e(Cm_(0, 7), A(id1)); H::more(e, w); H::eq(e, w); CHECK(same_id<P>(e, id1), "construction with comparison and allocator");
        if constexpr (cp) { Ent x[2] = {fresh_ent(), fresh_ent()}; const V arr[2] = {mk<typename H::F>(x[0]), mk<typename H::F>(x[1])}; M q; q.id = 9; for (int i = 0; i < 2; i++) if (H::F::multi || q.find(x[i].k) < 0) q.add(x[i]);
          C f(arr, arr + 2, Cm_(0, 9), A(id2)); CHECK(same_id<P>(f, id2), "construction with an allocator"); H::eq(f, q); q.id = 0; C h(arr, arr + 2, A(id2)); CHECK(same_id<P>(h, id2), "construction with an allocator"); H::eq(h, q);
          std::initializer_list<V> il = {arr[0], arr[1]}; C i(il, A(id2)); CHECK(same_id<P>(i, id2), "construction with an allocator"); H::eq(i, q); q.id = 9; C j(il, Cm_(0, 9), A(id2)); CHECK(same_id<P>(j, id2), "construction with an allocator"); H::eq(j, q); C k(il, Cm_(0, 9)); H::eq(k, q); C l(arr, arr + 2, Cm_(0, 9)); H::eq(l, q); q.id = 0; C n(arr, arr + 2); H::eq(n, q); C o(il); H::eq(o, q); }
#endif
        sx_reach("ctor(alloc)"); break; }
    }
    sx_obs(a.size()); obs_mon();
  }
  CHECK(g.live_by_alloc == 0, "elements are not destroyed through the allocator");
  all_returned();
}
extern "C" void alloc_0() { alloc<EN, HOOK>(); }
extern "C" void alloc_1() { alloc<EN, POCCA>(); }
extern "C" void alloc_2() { alloc<EN, POCMA | SELECT>(); }
extern "C" void alloc_3() { alloc<EN, POCCA | POCMA | HOOK | SELECT>(); }
extern "C" void alloc_4() { alloc<EN, POCS>(); }
extern "C" void alloc_5() { alloc<EN, POCCA | POCMA | POCS | HOOK>(); }
extern "C" void alloc_6() { alloc<EN, ALWAYS_EQ>(); }
extern "C" void alloc_7() { alloc<EM, POCMA>(); }
extern "C" void alloc_8() { alloc<EM, HOOK>(); }
#ifdef KK
// every operation: element construction and destruction go through the allocator
template <Kind K, class T, int P> void hook() {
  {
    typedef seq_t<K, T, Alloc<T, P>> C; C c; Seq m; u32 op = (u32)sx_range("op", 0, NSEQOP - 1);
    build<K>(c, m, shape<K>(1, 3, 1)); step<K>(c, m, op, 2); same1(c, m);
    CHECK(g.live_by_alloc == (long)c.size(), "elements are not constructed/destroyed through the allocator");
    CHECK(same_id<P>(c, 0), "allocator changed");
    obs_seq(c); obs_mon();
  }
  CHECK(g.live_by_alloc == 0, "elements are not destroyed through the allocator");
  all_returned();
}
extern "C" void hook_EN() { hook<Kind(KK), EN, HOOK>(); }
extern "C" void hook_EM() { hook<Kind(KK), EM, HOOK | POCMA | POCS>(); }
#else
template <class T, int P> void hook() {
  typedef Fam<FK, T, T, CM_TRANSP, Alloc<u32, P>> F;
  {
    typename F::type c{typename F::cmp(0, 55)}; Fm m; m.id = 55; u32 op = (u32)sx_range("op", 0, NFOP - 1);
    fbuild<F>(c, m, fshape<F>(3, 1)); fstep<F>(c, m, op, 2); fsame<F>(c, m);
    CHECK(g.live_by_alloc == (long)c.size() * (F::map ? 2 : 1), "elements are not constructed/destroyed through the allocator");
    fobs<F>(c);
  }
  CHECK(g.live_by_alloc == 0, "elements are not destroyed through the allocator");
  all_returned();
}
extern "C" void hook_EN() { hook<EN, HOOK>(); }
extern "C" void hook_EM() { hook<EM, HOOK | POCMA | POCS>(); }
#endif
