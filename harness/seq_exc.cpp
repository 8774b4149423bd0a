// Every operation with a failure injected at a symbolic point of the element, value-conversion
// or allocation operations it performs.
#include "seq.h"
using namespace hx;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef SLK
#define SLK 2
#endif
#ifndef KMAX
#define KMAX 3
#endif
struct Arm { void operator()() const { arm("t", 60); } };
struct Dis { void operator()() const { disarm(); } };
template <Kind K, class T> void exc() {
  {
    seq_t<K, T, Alloc<T, 0>> c; Seq m;
    u32 op = (u32)sx_range("op", 0, NSEQOP - 1);
    build<K>(c, m, shape<K>(SLK, NMAX, SLK));
    bool thrown = false;
    try { step<K>(c, m, op, KMAX, Arm(), Dis()); } catch (Bang&) { thrown = true; }
    disarm();
    CHECK(thrown == g.thrown, "an exception raised by an element or the allocator was swallowed");
    valid(c);
    if (thrown) {
      CHECK(g.live == (long)c.size(), "elements alive outside the container after an exception");
      obs_seq(c);
      u32 x = sx_u32("y");
      if constexpr (K == STATIC) { if (c.size() == STATIC_N) c.pop_back(); }
      c.emplace_back(x); CHECK(val(c.back()) == x, "container unusable after an exception");
      if constexpr (two_ended<K>) { c.emplace_front(x); CHECK(val(c.front()) == x, "container unusable after an exception"); }
      sx_reach("thrown");
    } else same(c, m);
  }
  all_returned(); obs_mon();
}
extern "C" void exc_EA() { exc<Kind(KK), EA>(); }
extern "C" void exc_EB() { exc<Kind(KK), EB>(); }
extern "C" void exc_EC() { exc<Kind(KK), EC>(); }
extern "C" void exc_EMT() { exc<Kind(KK), EMT>(); }
extern "C" void exc_EN() { exc<Kind(KK), EN>(); }

// Constructors: all resources come back when construction fails.
template <Kind K, class T> void ctor() {
  typedef seq_t<K, T, Alloc<T, 0>> C;
  {
    u32 op = (u32)sx_range("op", 0, 9);
    C o; Seq m; build<K>(o, m, shape<K>(1, 3, 1));
    Src s = src("k", 0, 4); Buf<T> b(s);
    long base = g.live; u32 blocks = g.nblk; bool thrown = false; u32 pos = 0;
    auto verify = [&](C& c, const Seq& w) { disarm(); same(c, w); obs_seq(c); };
    Seq r; r.set(s.n, s.x); Seq d; d.fill(0, s.n, defval<T>());
    try {
      switch (op) {
        case 0: if constexpr (std::is_copy_constructible_v<T>) { const T t(7); Seq f; f.fill(0, s.n, 7); base++; struct X { long& b; ~X() { b--; } } x{base}; arm("t", 20); C c(s.n, t); verify(c, f); sx_reach("ctor(n,value)"); } break;
        case 1: { if constexpr (K == STATIC) if (pick("di", 0, 1)) { arm("t", 20); C c(s.n, sfl::default_init_t()); verify(c, d); sx_reach("ctor(n, default_init)"); break; } arm("t", 20); C c(s.n); verify(c, d); sx_reach("ctor(n)"); break; }
        case 2: if constexpr (std::is_copy_constructible_v<T>) { arm("t", 20); C c(FwIt<T>(b.b()), FwIt<T>(b.e())); verify(c, r); sx_reach("ctor(fwd range)"); } break;
        case 3: if constexpr (std::is_copy_constructible_v<T>) { arm("t", 20); C c(InIt<T>(b.b(), &pos), InIt<T>(b.e(), &pos)); verify(c, r); sx_reach("ctor(input range)"); } break;
        case 4: if constexpr (std::is_copy_constructible_v<T>) { arm("t", 20); C c(o); verify(c, m); same1(o, m); sx_reach("copy ctor"); } break;
        case 5: { arm("t", 20); C c(std::move(o)); verify(c, m); valid(o); sx_reach("move ctor"); break; }
        case 6: if constexpr (std::is_copy_constructible_v<T> && K != STATIC) { arm("t", 20); C c(o, Alloc<T, 0>(9)); verify(c, m); same1(o, m); sx_reach("copy ctor(alloc)"); } break;
        case 7: if constexpr (K != STATIC) { arm("t", 20); C c(std::move(o), Alloc<T, 0>(9)); verify(c, m); valid(o); sx_reach("move ctor(alloc)"); } break;
        case 8: if constexpr (std::is_copy_constructible_v<T>) { std::initializer_list<T> il = {T(1), T(2), T(3)}; Seq w; w.push(1); w.push(2); w.push(3); struct X { long& b; X(long& q) : b(q) { b += 3; } ~X() { b -= 3; } } x(base); arm("t", 20); C c(il); verify(c, w); sx_reach("ctor(ilist)"); } break;
        case 9: if constexpr (std::is_copy_constructible_v<T>) { arm("t", 20); C c(b.b(), b.e()); verify(c, r); sx_reach("ctor(pointer range)"); } break;
      }
    } catch (Bang&) { thrown = true; sx_reach("thrown"); }
    disarm();
    valid(o);
    if (thrown) { CHECK(g.live == (long)(o.size() + b.n), "failed construction leaks elements"); if (op != 5 && op != 7) CHECK(g.nblk == blocks, "failed construction leaks storage"); }
  }
  all_returned(); obs_mon();
}
extern "C" void ctor_EA() { ctor<Kind(KK), EA>(); }
extern "C" void ctor_EB() { ctor<Kind(KK), EB>(); }
extern "C" void ctor_EMT() { ctor<Kind(KK), EMT>(); }
