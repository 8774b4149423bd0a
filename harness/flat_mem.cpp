// Storage management of associative containers: strong guarantee (strong_*), capacity promises
// and reference stability (cap_*), copy/move/swap (cms_*).
#define COUNT_NEW
#include "flat.h"
using namespace hx;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef SLK
#define SLK 2
#endif
#ifndef KMAX
#define KMAX 2
#endif
template <class C> struct Snap {
  usz n, cap; const void* p[MCAP];
  Snap(C& c) : n(c.size()), cap(c.capacity()) { u32 i = 0; for (auto& x : c) p[i++] = AD %x; }
  void same_refs(C& c, usz cnt, const char* w) { usz i = 0; for (auto it = c.begin(); it != c.end() && i < cnt; ++it, ++i) CHECK(AD %*it == p[i], w); }
};
// ------------------------------------------------------------------ strong guarantee
template <class F> void strong() {
  heap_start();
  typedef typename F::type C;
  if constexpr (!F::stat) {
    {
      Fm m; m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55; C c{typename F::cmp(m.dir, m.id)};
      const bool shrink = pick("op", 0, 1); fbuild<F>(c, m, fshape<F>(NMAX, SLK));
      Snap<C> s(c); bool thrown = false; auto b = c.begin(), e = c.end(); const u32 k = shrink ? 0 : (u32)pick("k", 0, m.n + 4), blocks = g.nblk;
      arm("t", 30);
      try { if (shrink) c.shrink_to_fit(); else c.reserve(k); } catch (Bang&) { thrown = true; }
      disarm();
      CHECK(thrown == g.thrown, "an exception raised by an element or the allocator was swallowed");
      if (thrown) { const char* x = "reserve/shrink_to_fit failed but had an effect"; CHECK(c.size() == s.n && c.capacity() == s.cap && c.begin() == b && c.end() == e && g.nblk == blocks, x); s.same_refs(c, s.n, x); sx_reach("thrown"); sx_reach(shrink ? "shrink_to_fit" : "reserve"); }
      fobservers<F>(c, m); fobs<F>(c);
    }
    all_returned();
  }
}
extern "C" void strong_EA() { strong<Fam<FK, EA, EA, 0, Alloc<u32, 0>>>(); }
extern "C" void strong_EB() { strong<Fam<FK, EB, EB, 0, Alloc<u32, 0>>>(); }
extern "C" void strong_EC() { strong<Fam<FK, EC, EC, 0, Alloc<u32, 0>>>(); }
extern "C" void strong_EM() { strong<Fam<FK, EM, EM, 0, Alloc<u32, 0>>>(); }

// ------------------------------------------------------------------ capacity and references
template <class F> void cap() {
  heap_start(); bool skip = false;
  typedef typename F::type C; const usz N = F::stat ? STATIC_N : SMALL_N;
  {
    Fm m; u32 op = (u32)sx_range("op", 0, NFOP - 1); m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55; C c{typename F::cmp(m.dir, m.id)};
    fbuild<F>(c, m, fshape<F>(NMAX, SLK)); Snap<C> s(c); skip = op == F_AT || op == F_CAT || op == F_AT_HET;
    CHECK(C::static_capacity == N, "static_capacity");
    if (F::stat) CHECK(c.capacity() == N && c.max_size() == N, "static container: capacity() differs from N");
    else { CHECK((c.capacity() > N) == (g.nblk == 1) && c.capacity() >= N, "small container: capacity() does not tell whether storage is allocated"); if (c.capacity() == N) CHECK(g.nalloc == 0, "small container: allocated although the elements fit inside"); }
    const u32 na = g.nalloc, nd = g.ndealloc; u32 k = 0; bool rs = false;
    const bool spare = op == F_EMPL || op == F_HEMPL;   // may construct the element in the container before looking for its key
    if (op == F_RESERVE) { if constexpr (!F::stat) { k = (u32)pick("k", 0, m.n + 3); rs = true; c.reserve(k); CHECK(c.capacity() == (k > s.cap ? k : s.cap), "reserve() does not give exactly the capacity asked for"); sx_reach("reserve"); } }
    else if (op == F_SHRINK) { if constexpr (!F::stat) { c.shrink_to_fit(); CHECK(c.capacity() == (m.n > N ? m.n : N), "shrink_to_fit() leaves spare capacity"); sx_reach("shrink_to_fit"); } }
    else fstep<F>(c, m, op, KMAX);
    const usz n = c.size(); fobservers<F>(c, m);
    const bool two = op == F_COPY_ASG || op == F_MOVE_ASG || op == F_SWAP_M || op == F_SWAP_F;
    if (F::stat) CHECK(c.capacity() == N, "static container: capacity() differs from N");
    else if (!two) { CHECK((c.capacity() > N) == (g.nblk == 1) && c.capacity() >= N, "small container: capacity() does not tell whether storage is allocated"); if (s.cap == N && (spare ? s.n + 1 : n) <= N && !rs) CHECK(c.capacity() == N && g.nalloc == na, "small container: allocated although the elements fit inside"); }
    if (!two && op != F_SHRINK) {
      bool fits = n <= s.cap; if (rs) fits = k <= s.cap;
      if (spare) fits = s.n + 1 <= s.cap;
      if (fits) {
        CHECK(g.nalloc == na && g.ndealloc == nd && c.capacity() == s.cap, "storage was reallocated although the result fits");
        if (rs) s.same_refs(c, n, "reserve() moved elements");
        sx_reach("fits");
      }
    }
    if (rs && k > n) { const u32 a0 = g.nalloc; for (usz i = n; i < k && i < n + 2; i++) { Ent e = fresh_ent(); const bool nw = F::multi || m.find(e.k) < 0; if constexpr (F::map) c.emplace(std::piecewise_construct, std::forward_as_tuple(e.k, e.t), std::forward_as_tuple(e.m)); else c.emplace(e.k, e.t); if (nw) m.add(e); } CHECK(g.nalloc == a0, "allocation although the space had been reserved"); fsame<F>(c, m); sx_reach("reserved"); }
    fobs<F>(c);
  }
  all_returned(); if (!skip) heap_check();
}
extern "C" void cap_EN() { cap<Fam<FK, EN, EN, CM_TRANSP, Alloc<u32, 0>>>(); }
extern "C" void cap_tv() { cap<Fam<FK, Triv, u32, CM_TRANSP, Alloc<u32, 0>>>(); }

// ------------------------------------------------------------------ copy, move, swap
template <class F> void cms() {
  heap_start();
  typedef typename F::type C; typedef typename F::value V;
  constexpr bool cp = std::is_copy_constructible_v<V>;
  {
    u32 what = (u32)sx_range("what", 0, 8), side = (u32)pick("side", 0, 1);
    static const u32 ops[] = {F_INS_C, F_EMPL, F_INS_RFW, F_HEMPL, F_ER_POS, F_ER_KEY, F_CLEAR, F_SHRINK, F_COPY_ASG, F_MOVE_ASG, F_SWAP_M, F_IL_ASG, F_SUB_M, F_ERASE_IF};
    const u32 op = ops[pick("nextop", 0, 13)];
    Fm ma, mb; ma.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); ma.id = 55; mb.dir = F::unord ? 0 : 1; mb.id = 66;
    C a{typename F::cmp(ma.dir, ma.id)}; fbuild<F>(a, ma, fshape<F>(NMAX, 1));
    // a moved-from container is valid: empty it and go on with it
    auto again = [&](C& x, Fm& m) { fvalid<F>(x); x.clear(); CHECK(x.empty() && x.size() == 0 && x.begin() == x.end(), "moved-from container cannot be cleared"); auto cm = cmp_of<F>(x); m.n = 0; m.id = cm.id; m.dir = cm.dir; };
    auto both = [&](C& x, Fm& mx, C& y, Fm& my) {
      fsame<F>(x, mx); fsame<F>(y, my);
      for (auto& i : x) for (auto& j : y) CHECK(AD %i != AD %j, "two containers share an element");
      if (side == 0) fstep<F>(x, mx, op, 1); else fstep<F>(y, my, op, 1);
      fsame<F>(x, mx); fsame<F>(y, my); fobs<F>(x); fobs<F>(y);
    };
    switch (what) {
      case 0: if constexpr (cp) { C b(a); mb = ma; both(a, ma, b, mb); sx_reach("copy ctor"); } break;
      case 1: { C b(std::move(a)); mb = ma; again(a, ma); both(a, ma, b, mb); sx_reach("move ctor"); break; }
      case 2: if constexpr (cp) { C b{typename F::cmp(mb.dir, mb.id)}; fbuild<F>(b, mb, fshape<F>(NMAX, 1)); a = b; ma = mb; both(a, ma, b, mb); sx_reach("copy assignment"); } break;
      case 3: { C b{typename F::cmp(mb.dir, mb.id)}; fbuild<F>(b, mb, fshape<F>(NMAX, 1)); a = std::move(b); ma = mb; again(b, mb); both(a, ma, b, mb); sx_reach("move assignment"); break; }
      case 4: { C b{typename F::cmp(mb.dir, mb.id)}; fbuild<F>(b, mb, fshape<F>(NMAX, 1)); a.swap(b); std::swap(ma, mb); both(a, ma, b, mb); sx_reach("swap"); break; }
      case 5: { C b{typename F::cmp(mb.dir, mb.id)}; fbuild<F>(b, mb, fshape<F>(NMAX, 1)); using std::swap; swap(a, b); std::swap(ma, mb); both(a, ma, b, mb); sx_reach("swap(free)"); break; }
      case 6: if constexpr (cp) { C& r = a; a = r; fsame<F>(a, ma); fstep<F>(a, ma, op, 1); fsame<F>(a, ma); sx_reach("self copy assignment"); } break;
      case 7: { C& r = a; a.swap(r); fsame<F>(a, ma); fstep<F>(a, ma, op, 1); fsame<F>(a, ma); sx_reach("self swap"); break; }
      case 8: { C& r = a; a = std::move(r); again(a, ma); fstep<F>(a, ma, op, 1); fsame<F>(a, ma); sx_reach("self move assignment"); break; }
    }
  }
  all_returned(); heap_check();
}
extern "C" void cms_EN() { cms<Fam<FK, EN, EN, 0, Alloc<u32, POCMA>>>(); }
extern "C" void cms_EM() { cms<Fam<FK, EM, EM, 0, Alloc<u32, POCMA>>>(); }
extern "C" void cms_tv() { cms<Fam<FK, Triv, u32, 0, Alloc<u32, POCMA>>>(); }
