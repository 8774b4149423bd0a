// Built with SFL_NO_EXCEPTIONS and without exception support: what throws otherwise calls std::abort.
#ifdef KK
#include "seq.h"
#else
#include "flat.h"
#endif
using namespace hx;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef SLK
#define SLK 1
#endif
#define STOP(what, ...) do { sx_reach(what); sx_expect_abort(1); __VA_ARGS__; sx_fail("an error returned to the caller instead of calling std::abort: " what); } while (0)
#ifdef KK
template <Kind K, class T> void abrt() {
  typedef seq_t<K, T, Alloc<T, 0>> C;
  {
    C c; Seq m; const u32 op = (u32)sx_range("op", 0, 15); build<K>(c, m, shape<K>(SLK, NMAX, SLK)); const C& k = c; const u32 n = m.n; const T t(7);
    if (op < 2) {
      const u64 i = sx_u64("i");
      if (sx_conc(i < n)) { const T& r = op ? k.at(i) : c.at(i); const u32 p = (u32)sx_conc(i); CHECK(AD %r == AD %k[p] && val(r) == m.a[p], "at() refers to another element"); sx_reach("at"); }
      else if (op) STOP("at const", (void)k.at(i)); else STOP("at", (void)c.at(i));
    } else if constexpr (has_alloc<K>) {
      const u64 x = sx_u64("len"), mx = c.max_size(); const u32 p = (u32)pick("p", 0, n);
      const CountIt<T> b; CountIt<T> e; e.i = (std::ptrdiff_t)(x & (~u64(0) >> 1));
      switch (op) {
        case 2: if constexpr (has_op<K, T>(RESERVE)) { sx_assume(x > mx); STOP("reserve", c.reserve(x)); } break;
        case 3: sx_assume(x > mx); STOP("resize(n)", c.resize(x)); break;
        case 4: sx_assume(x > mx); STOP("resize(n,value)", c.resize(x, t)); break;
        case 5: sx_assume(x > mx); STOP("insert(pos,n,value)", c.insert(c.begin() + p, usz(x), t)); break;
        case 6: sx_assume(x > mx); STOP("assign(n,value)", c.assign(usz(x), t)); break;
        case 7: sx_assume(x > mx); STOP("ctor(n)", C d(x)); break;
        case 8: sx_assume(x > mx); STOP("ctor(n,value)", C d(usz(x), t)); break;
        case 9: sx_assume((u64)e.i > mx); STOP("ctor(range)", C d(b, e)); break;
        case 10: sx_assume((u64)e.i > mx); STOP("assign(range)", c.assign(b, e)); break;
        case 11: sx_assume((u64)e.i > mx); STOP("insert(pos,range)", c.insert(c.begin() + p, b, e)); break;
        case 12: if constexpr (two_ended<K>) { sx_assume(x > mx && x - mx > 0); STOP("resize_front", c.resize_front(x, t)); } break;
        case 13: if constexpr (two_ended<K>) { sx_assume(x > mx); STOP("resize_back", c.resize_back(x)); } break;
        case 14: if constexpr (two_ended<K>) { sx_assume(x > mx); STOP("reserve_front", c.reserve_front(x)); } break;
        case 15: if constexpr (two_ended<K>) { sx_assume(x > mx); STOP("reserve_back", c.reserve_back(x)); } break;
      }
    }
    same1(c, m); obs_seq(c);
  }
  all_returned();
}
extern "C" void abrt_EN() { abrt<Kind(KK), EN>(); }
extern "C" void abrt_u32() { abrt<Kind(KK), u32>(); }
#else
template <class F> void abrt() {
  typedef typename F::type C;
  if constexpr (!F::stat) {
    Fm m; m.dir = 0; m.id = 5; C c{typename F::cmp(0, 5)}; fbuild<F>(c, m, fshape<F>(NMAX, SLK));
    const u64 x = sx_u64("len"); sx_assume(x > c.max_size()); STOP("reserve", c.reserve(x));
  }
}
template <class K, class V> using FM = Fam<FK, K, V, CM_TRANSP, Alloc<K, 0>>;
extern "C" void abrt_EN() { abrt<FM<EN, EN>>(); }
extern "C" void abrt_u32() { abrt<FM<Triv, u32>>(); }
#endif
