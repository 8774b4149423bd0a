// Associative containers: reserve() over all 64-bit lengths, growth up to max_size().
#include <optional>
#include "flat.h"
using namespace hx;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef KM
#define KM 2
#endif
#ifndef SLK
#define SLK 2
#endif
template <class F> void flen() {
  typedef typename F::type C; typedef typename F::value V;
  if constexpr (!F::stat) {
    {
      Fm m; m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55; C c{typename F::cmp(m.dir, m.id)};
      fbuild<F>(c, m, fshape<F>(NMAX, SLK));
      const usz cap = c.capacity(), mx = c.max_size(); const auto b = c.begin(), e = c.end(); const u32 blocks = g.nblk;
      CHECK(mx == usz(~usz(0) >> 1) / sizeof(V), "max_size()");
      u64 k = sx_u64("len"); if (sx_conc(k <= 16)) k = sx_conc(k);
      g.alloc_limit = 12 * sizeof(V); int how = 0;
      try { c.reserve(k); CHECK(c.capacity() >= k && c.capacity() >= cap, "reserve() did not provide the capacity"); }
      catch (const std::length_error&) { how = 1; } catch (const std::bad_alloc&) { how = 2; }
      if (how == 1) CHECK(k > mx, "std::length_error although the length fits");
      if (k > mx) { CHECK(how != 0, "impossible length accepted"); CHECK(how == 1, "impossible length not reported as std::length_error"); sx_reach("length_error"); }
      if (how == 2) { CHECK(k > 12, "bad_alloc for a small length"); sx_reach("bad_alloc"); }
      if (how) CHECK(c.capacity() == cap && c.begin() == b && c.end() == e && g.nblk == blocks, "refused reserve() changed the container"); else sx_reach("fits");
      fobservers<F>(c, m); fobs<F>(c);
    }
    all_returned();
  }
}
// everything up to a small max_size() fits, nothing beyond it does
template <class F> void fmaxs() {
  typedef typename F::type C; typedef typename F::value V;
  if constexpr (!F::stat) {
    {
      Fm m; const u32 op = (u32)sx_range("op", 0, 10); m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55; C c{typename F::cmp(m.dir, m.id)};
      fbuild<F>(c, m, fshape<F>(NMAX, SLK));
      const u32 n = m.n; const usz cap = c.capacity(); const auto b0 = c.begin(), e0 = c.end();
      const usz room = pick("room", 0, KM);
      const bool many = op >= 4 && op <= 7; const u32 k = op < 4 ? 1 : op >= 8 && op <= 9 ? 1 : (u32)pick("k", 0, op == 10 ? 4 : KM);
      Ent x[4]; if (op != 10) for (u32 i = 0; i < k; i++) { x[i] = fresh_ent(); sx_assume(m.find(x[i].k) < 0); for (u32 j = 0; j < i; j++) sx_assume(x[i].k != x[j].k); }
      struct Vs { std::optional<V> v[4]; } vs; if (op != 10) for (u32 i = 0; i < k; i++) { if constexpr (F::map) vs.v[i].emplace(std::piecewise_construct, std::forward_as_tuple(x[i].k, x[i].t), std::forward_as_tuple(x[i].m)); else vs.v[i].emplace(x[i].k, x[i].t); }
      C s{typename F::cmp(m.dir, m.id)}; if (op == 6 || op == 7) for (u32 i = 0; i < k; i++) s.insert(*vs.v[i]);
      const usz base = cap > s.capacity() ? cap : s.capacity(); g.maxn = base + room;
      if (base <= SMALL_N && SMALL_N && !room && pick("tiny", 0, 1)) g.maxn = pick("maxn", 0, SMALL_N - 1); // elements stored inside need no allocator
      const usz mx = g.maxn > SMALL_N ? g.maxn : SMALL_N;
      const usz total = op == 6 || op == 7 ? k : op == 10 ? n + k : n + k;
      CHECK(c.max_size() == mx, "max_size() ignores the allocator");
      bool thrown = false, skip = false; const V* p0 = k && op != 10 ? AD %*vs.v[0] : nullptr; (void)p0; (void)e0; (void)b0; (void)many;
      try {
        switch (op) {
          case 0: if constexpr (F::map) c.emplace(std::piecewise_construct, std::forward_as_tuple(x[0].k, x[0].t), std::forward_as_tuple(x[0].m)); else c.emplace(x[0].k, x[0].t); break;
          case 1: c.insert(*p0); break;
          case 2: c.insert(V(*p0)); break;
          case 3: c.insert(c.begin() + (std::ptrdiff_t)pick("h", 0, n), *p0); break;
          case 4: for (u32 i = 0; i < k; i++) c.insert(*vs.v[i]); break;
          case 5: { V* q[4]; for (u32 i = 0; i < k; i++) q[i] = AD %*vs.v[i]; struct It { typedef std::forward_iterator_tag iterator_category; typedef V value_type; typedef std::ptrdiff_t difference_type; typedef const V* pointer; typedef const V& reference; V** q; const V& operator*() const { return **q; } It& operator++() { ++q; return *this; } It operator++(int) { It o = *this; ++q; return o; } bool operator==(const It& o) const { return q == o.q; } bool operator!=(const It& o) const { return q != o.q; } }; c.insert(It{q}, It{q + k}); break; }
          case 6: c = s; break;
          case 7: { C d(s); fsame<F>(d, [&] { Fm w; w.dir = m.dir; w.id = m.id; for (u32 i = 0; i < k; i++) w.add(x[i]); return w; }()); skip = true; break; }
          case 8: if constexpr (F::map && !F::multi) { c.try_emplace(typename F::key(x[0].k, x[0].t), x[0].m); } else skip = true; break;
          case 9: if constexpr (F::map && !F::multi) { c.insert_or_assign(typename F::key(x[0].k, x[0].t), typename F::mapped(x[0].m)); } else skip = true; break;
          case 10: c.reserve(n + k); break;
        }
      } catch (const std::length_error&) { thrown = true; }
      if (skip) CHECK(!thrown, "std::length_error although the elements fit into max_size()");
      else {
        if (total > mx) { CHECK(thrown, "more than max_size() elements accepted"); sx_reach("over"); } else CHECK(!thrown, "std::length_error although the elements fit into max_size()");
        CHECK(c.size() <= mx && c.capacity() <= mx, "container larger than max_size()");
        if (!thrown) { if (op == 6) m.n = 0; if (op != 10) for (u32 i = 0; i < k; i++) m.add(x[i]); fobservers<F>(c, m); sx_reach("fits"); }
        else if (op <= 3 || op >= 8) { CHECK(c.capacity() == cap && c.begin() == b0 && c.end() == e0, "refused insertion or reserve changed the container"); fobservers<F>(c, m); }
        else { fvalid<F>(c); forder<F>(c, m.dir, "order or uniqueness lost"); if (op != 6) { for (u32 i = 0; c.size() > m.n && i < k; i++) m.add(x[i]); fobservers<F>(c, m); } }
      }
      g.maxn = 1000; fobs<F>(c);
    }
    all_returned();
  }
}
extern "C" void flen_tv() { flen<Fam<FK, Triv, u32, 0, Alloc<u32, 0>>>(); }
extern "C" void flen_EN() { flen<Fam<FK, EN, EN, 0, Alloc<u32, 0>>>(); }
extern "C" void fmaxs_EN() { fmaxs<Fam<FK, EN, EN, 0, Alloc<u32, MAXN>>>(); }
