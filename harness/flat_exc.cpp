// Associative containers: every operation with a failure injected at a symbolic point.
#include "flat.h"
using namespace hx;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef SLK
#define SLK 1
#endif
#ifndef KMAX
#define KMAX 2
#endif
struct Arm { void operator()() const { arm("t", 60); } };
struct Dis { void operator()() const { disarm(); } };
template <class F, bool CMPT> void exc() {
  {
    Fm m; u32 op = (u32)sx_range("op", 0, NFOP - 1);
    m.dir = 0; m.id = 55;
    typename F::type c{typename F::cmp(m.dir, m.id)};
    fbuild<F>(c, m, fshape<F>(NMAX, SLK));
    bool thrown = false;
    try { fstep<F>(c, m, op, KMAX, Arm(), Dis()); } catch (Bang&) { thrown = true; }
    disarm();
    CHECK(thrown == g.thrown, "an exception raised by an element, the comparison or the allocator was swallowed");
    fvalid<F>(c);
    if (thrown) {
      CHECK(g.live == (long)c.size() * (F::map ? 2 : 1), "elements alive outside the container after an exception");
      // nothing but the comparison failed: order and uniqueness must be intact
      if (CMPT && g.thrown_by_cmp) { forder<F>(c, m.dir, "order or uniqueness broken after the comparison threw"); sx_reach("comparison threw"); }
      sx_reach("thrown"); fobs<F>(c); c.clear();
      typename F::key k(5); if constexpr (F::map) c.emplace(5, 6); else c.emplace(5);
      CHECK(c.size() == 1 && c.contains(k), "container unusable after an exception");
    } else fsame<F>(c, m);
  }
  all_returned();
}
extern "C" void exc_EA() { exc<Fam<FK, EA, EA, CM_TRANSP, Alloc<u32, 0>>, false>(); }
extern "C" void exc_EB() { exc<Fam<FK, EB, EB, 0, Alloc<u32, 0>>, false>(); }
extern "C" void exc_EC() { exc<Fam<FK, EC, EC, 0, Alloc<u32, 0>>, false>(); }
extern "C" void exc_EMT() { exc<Fam<FK, EMT, EMT, 0, Alloc<u32, 0>>, false>(); }
extern "C" void exc_CT() { exc<Fam<FK, EN, EN, CM_THROW | CM_TRANSP, Alloc<u32, 0>>, true>(); }

// constructors
#ifndef KRNG
#define KRNG 4
#endif
template <class F> void ctor() {
  typedef typename F::type C; typedef typename F::value V; typedef typename F::cmp Cmp;
  constexpr bool cp = std::is_copy_constructible_v<V>;
  {
    u32 op = (u32)sx_range("op", 0, 9);
    Fm m; m.id = 55; C o{Cmp(0, 55)}; fbuild<F>(o, m, fshape<F>(3, 1));
    u32 kk = (u32)pick("k", 0, KRNG), pos = 0, blocks = g.nblk; bool thrown = false; usz osz = o.size();
    alignas(V) unsigned char buf[sizeof(V) * KRNG]; V* b = reinterpret_cast<V*>(buf); u32 bn = 0, bn_il = 0; Ent es[KRNG]; Fm r; r.id = 66; Fm r0;
    struct R { V* b; u32& n; ~R() { while (n) b[--n].~V(); } } rr{b, bn};
    for (; bn < kk; bn++) { Ent e = es[bn] = fresh_ent(); ::new ((void*)(b + bn)) V(mk<F>(e)); if (F::multi || r.find(e.k) < 0) r.add(e); }
    r0 = r; r0.id = 0;
    auto verify = [&](C& c, const Fm& w) { disarm(); fsame<F>(c, w); fobs<F>(c); };
    try {
      switch (op) {
        case 0: if constexpr (cp) { arm("t", 30); C c(FwIt<V>(b), FwIt<V>(b + kk), Cmp(0, 66)); verify(c, r); sx_reach("ctor(fwd range)"); } break;
        case 1: if constexpr (cp) { arm("t", 30); C c(InIt<V>(b, &pos), InIt<V>(b + kk, &pos), Cmp(0, 66)); verify(c, r); sx_reach("ctor(input range)"); } break;
        case 2: if constexpr (cp) { arm("t", 30); C c(o); verify(c, m); sx_reach("copy ctor"); } break;
        case 3: { arm("t", 30); C c(std::move(o)); verify(c, m); sx_reach("move ctor"); break; }
        case 4: if constexpr (cp && !F::stat) { arm("t", 30); C c(o, typename C::allocator_type(9)); verify(c, m); sx_reach("copy ctor(alloc)"); } break;
        case 5: if constexpr (!F::stat) { arm("t", 30); C c(std::move(o), typename C::allocator_type(9)); verify(c, m); sx_reach("move ctor(alloc)"); } break;
        case 7: if constexpr (cp) { arm("t", 30); C c(InIt<V>(b, &pos), InIt<V>(b + kk, &pos)); verify(c, r0); sx_reach("ctor(input range, default comparison)"); } break;
        case 8: if constexpr (cp) { if (kk < 3) return; bn_il = 3; std::initializer_list<V> il = {b[0], b[1], b[2]}; Fm w; for (u32 i = 0; i < 3; i++) if (F::multi || w.find(es[i].k) < 0) w.add(es[i]); struct Y { u32& b; ~Y() { b = 0; } } y{bn_il}; arm("t", 30); C c(il); verify(c, w); sx_reach("ctor(ilist)"); } break;
        case 9: if constexpr (cp && !F::stat) { arm("t", 30); C c(FwIt<V>(b), FwIt<V>(b + kk), typename C::allocator_type(9)); verify(c, r0); sx_reach("ctor(fwd range, default comparison, alloc)"); } break;
        case 6: if constexpr (cp && !F::stat) { arm("t", 30); C c(FwIt<V>(b), FwIt<V>(b + kk), Cmp(0, 66), typename C::allocator_type(9)); verify(c, r); sx_reach("ctor(fwd range,alloc)"); } break;
      }
    } catch (Bang&) { thrown = true; sx_reach("thrown"); }
    disarm(); fvalid<F>(o);
    if (op != 3 && op != 5) CHECK(o.size() == osz, "construction changed its source");
    if (thrown) { CHECK(g.live == (long)(o.size() + bn) * (F::map ? 2 : 1), "failed construction leaks elements"); if (op != 3 && op != 5) CHECK(g.nblk == blocks, "failed construction leaks storage"); }
  }
  all_returned();
}
extern "C" void ctor_EA() { ctor<Fam<FK, EA, EA, 0, Alloc<u32, 0>>>(); }
extern "C" void ctor_CT() { ctor<Fam<FK, EN, EN, CM_THROW, Alloc<u32, 0>>>(); }
extern "C" void ctor_EMT() { ctor<Fam<FK, EMT, EMT, 0, Alloc<u32, 0>>>(); }
