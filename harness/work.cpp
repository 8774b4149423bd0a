// How much work an operation does: element operations (constructions and assignments),
// comparisons and allocations, against the documented complexity.
#ifdef KK
#include "seq.h"
using namespace hx;
#ifndef NMAX
#define NMAX 9
#endif
inline u32 work_of() { return g.made + g.cassigns + g.massigns; }
template <Kind K, class T> void work() {
  typedef seq_t<K, T, Alloc<T, 0>> C; constexpr bool cp = std::is_copy_constructible_v<T>;
  {
    static const u32 slack[] = {0, 2, 9}, cnts[] = {0, 1, 3, 8};
    C c; Seq m; const u32 op = (u32)sx_range("op", 0, 21);
    Shape s; s.n = (u32)pick("n", 0, NMAX); s.f = two_ended<K> ? slack[pick("f", 0, 2)] : 0; s.b = K == COMPACT || K == STATIC ? 0 : slack[pick("b", 0, 2)];
    build<K>(c, m, s);
    const u32 n = m.n, room = K == STATIC ? STATIC_N - n : 99; u32 front = 0, back = (u32)(c.capacity() - n);
    if constexpr (two_ended<K>) { front = (u32)c.available_front(); back = (u32)c.available_back(); }
    alignas(T) unsigned char raw[sizeof(T) * 8]; T* b = reinterpret_cast<T*>(raw); u32 bn = 0; struct R { T* b; u32& n; ~R() { while (n) b[--n].~T(); } } rr{b, bn};
    for (; bn < 8; bn++) ::new ((void*)(b + bn)) T(bn);
    const u32 w0 = work_of(), a0 = g.nalloc; u32 w = 0; bool moved_storage = false;
    auto done = [&] { w = work_of() - w0; moved_storage = g.nalloc != a0; };
    // placing k elements at distance l from the front and r from the back
    auto place = [&](u32 p, u32 k, const char* msg) {
      done(); const u32 l = p, r = n - p; const bool near_front = two_ended<K> && l < r;
      u32 d = two_ended<K> && l < r ? l : r;
      if (K != SEGV && K != SEGD && (moved_storage || K == COMPACT)) d = n;                       // everything moved into new storage
      if (K == DEVECTOR && !moved_storage && (near_front ? front : back) < k) d = n;   // no space at the near end
      CHECK(w <= 2 * (k + d) + 4, msg);
    };
    auto most = [&](u32 x, const char* msg) { done(); CHECK(w <= x, msg); };
    const u32 p = (op <= 2 || op == 3) ? (u32)pick("p", 0, n) : 0;
    const u32 k = op == 1 || op == 2 || op == 9 || op == 16 || op == 17 ? cnts[pick("k", 0, 3)] : 1; if (k > room && op != 16 && op != 17) return;
    switch (op) {
      case 0: c.emplace(c.begin() + p, 5u); place(p, 1, "emplace() moves more elements than those on the nearer side"); sx_reach("emplace"); break;
      case 1: if constexpr (cp) { c.insert(c.begin() + p, usz(k), b[0]); place(p, k, "insert(n) does not work in linear time"); sx_reach("insert n"); } break;
      case 2: if constexpr (cp) { c.insert(c.begin() + p, FwIt<T>(b), FwIt<T>(b + k)); place(p, k, "insert(range) does not work in linear time"); sx_reach("insert range"); } break;
      case 3: { const u32 q = (u32)pick("q", p, n); c.erase(c.begin() + p, c.begin() + q); const u32 l = p, r = n - q; (void)l; most((K == COMPACT ? 2 * n : 2 * (r > l ? r : l)) + 2, "erase() does not work in linear time"); sx_reach("erase"); break; }
      case 4: if (!room) return; c.emplace_back(5u); place(n, 1, "emplace_back() moves elements"); if (K == SEGV || K == SEGD) CHECK(w <= 2, "emplace_back() moves elements of a segmented container"); sx_reach("emplace_back"); break;
      case 5: if constexpr (two_ended<K>) { c.emplace_front(5u); place(0, 1, "emplace_front() moves elements"); if (K == SEGD) CHECK(w <= 2, "emplace_front() moves elements of a segmented container"); sx_reach("emplace_front"); } break;
      case 6: if (n) { c.pop_back(); if (K != COMPACT) most(0, "pop_back() does more than destroy the element"); sx_reach("pop_back"); } break;
      case 7: if constexpr (two_ended<K>) { if (n) { c.pop_front(); most(0, "pop_front() does more than destroy the element"); sx_reach("pop_front"); } } break;
      case 8: c.clear(); most(0, "clear() does more than destroy the elements"); sx_reach("clear"); break;
      case 9: c.resize(n + k); done(); if (!moved_storage || K == SEGV || K == SEGD) CHECK(K == DEVECTOR ? w <= 2 * (k + n) : w <= k, "resize() does more than construct the new elements"); else CHECK(w <= 2 * (k + n) + 2, "resize() does not work in linear time"); sx_reach("resize up"); break;
      case 10: { const u32 q = (u32)pick("q", 0, n); c.resize(q); if (K != COMPACT) most(0, "resize() does more than destroy the excess elements"); sx_reach("resize down"); break; }
      case 11: if constexpr (K != STATIC && K != SMALL) { C d; Seq dm; build<K>(d, dm, Shape{0, 3, 0}); const u32 w1 = work_of(), a1 = g.nalloc; if (pick("how", 0, 1)) c.swap(d); else { using std::swap; swap(c, d); } CHECK(work_of() == w1 && g.nalloc == a1, "swap() is not constant time"); CHECK(d.size() == n && c.size() == 3, "swap()"); sx_reach("swap"); } break;
      case 12: if constexpr (K != STATIC && K != SMALL) { C d(std::move(c)); most(0, "move construction is not constant time"); CHECK(d.size() == n, "move construction"); CHECK(g.nalloc - a0 <= 2, "move construction copies the storage"); sx_reach("move ctor"); } break;
      case 13: if constexpr (K != STATIC && K != SMALL) { C d; d = std::move(c); most(0, "move assignment with equal allocators moves elements"); CHECK(d.size() == n, "move assignment"); sx_reach("move assignment"); } break;
      case 14: if constexpr (has_op<K, T>(RESERVE)) { c.reserve(n + 5); most(2 * n + 2, "reserve() does not work in linear time"); sx_reach("reserve"); } break;
      case 15: if constexpr (requires { c.shrink_to_fit(); }) { c.shrink_to_fit(); most(2 * n + 2, "shrink_to_fit() does not work in linear time"); sx_reach("shrink_to_fit"); } break;
      case 16: if constexpr (cp) { c.assign(usz(k > STATIC_N && K == STATIC ? 0 : k), b[0]); most(2 * k + 2, "assign(n) does not work in linear time"); sx_reach("assign n"); } break;
      case 17: if constexpr (cp) { c.assign(FwIt<T>(b), FwIt<T>(b + k)); most(2 * k + 2, "assign(range) does not work in linear time"); sx_reach("assign range"); } break;
      case 18: if constexpr (cp) { C d(c); most(n + 1, "copy construction copies more than the elements"); sx_reach("copy ctor"); } break;
      case 19: if constexpr (cp) { C d; d = c; most(n + 1, "copy assignment copies more than the elements"); sx_reach("copy assignment"); } break;
      case 20: { const u32 x = (u32)sx_range("x", 0, 1); u32 keep = 0; for (u32 i = 0; i < n; i++) { sx_assume(m.a[i] <= 1); keep += sx_conc(m.a[i]) == x ? 0 : 1; } if (n > 6) return; (void)keep; sfl::erase_if(c, [&](const T& e) { return val(e) == x; }); most(K == COMPACT ? 2 * n : n, "erase_if() moves an element more than once"); sx_reach("erase_if"); break; }
      case 21: if constexpr (requires { c == c; }) { C d; Seq dm; const u32 q = (u32)pick("q", 0, 3); build<K>(d, dm, Shape{0, q, 0}); if (q == n) return; const u32 w1 = work_of(); u32 cmp0 = g.cmps; CHECK(!(c == d) && c != d, "containers of different size are equal"); CHECK(g.cmps == cmp0 && work_of() == w1, "comparison of containers of different size looks at the elements"); sx_reach("== of different sizes"); } break;
    }
    obs_mon();
  }
  all_returned();
}
extern "C" void work_EN() { work<Kind(KK), EN>(); }
extern "C" void work_EM() { work<Kind(KK), EM>(); }
// Total work of long runs of insertions at the ends, and of a queue of bounded length.
template <Kind K, class T> void grow() {
  if constexpr (K != STATIC && K != COMPACT) {
    {
      seq_t<K, T, Alloc<T, 0>> c; Seq m; build<K>(c, m, shape<K>(2, 3, 2)); const u32 n = m.n, how = (u32)pick("how", 0, two_ended<K> ? 4 : 1), N = K == SEGV || K == SEGD ? 60 : 120;
      const u32 w0 = work_of(), a0 = g.nalloc;
      switch (how) {
        case 0: for (u32 i = 0; i < N; i++) c.emplace_back(i); break;
        case 1: for (u32 i = 0; i < N; i += 3) { const T t(i); for (int j = 0; j < 3; j++) c.insert(c.end(), T(i)); } break;
        case 2: if constexpr (two_ended<K>) for (u32 i = 0; i < N; i++) c.emplace_front(i); break;
        case 3: if constexpr (two_ended<K>) { for (u32 i = 0; i < 6; i++) c.emplace_back(i); for (u32 i = 0; i < N; i++) { c.emplace_back(i); c.pop_front(); } } break;
        case 4: if constexpr (two_ended<K>) { for (u32 i = 0; i < 6; i++) c.emplace_back(i); for (u32 i = 0; i < N; i++) { c.emplace_front(i); c.pop_back(); } } break;
      }
      const u32 w = work_of() - w0, a = g.nalloc - a0;
      if (how < 3) CHECK(c.size() == n + N, "size after insertions at the end"); else CHECK(c.size() == n + 6, "size of a queue");
      CHECK(w <= 6 * (N + n) + 20, "insertions at the ends are not amortised constant time");
      if (K == SEGV || K == SEGD) CHECK(w <= 4 * N + 20, "insertions at the ends of a segmented container move elements");
      if ((K == SEGV || K == SEGD) && how < 3) { const u32 segs = (n + N) / SEG_N + 2; CHECK(a <= segs + segs / 4 + 8, "the table of segments does not grow geometrically"); }
      if (K != SEGV && K != SEGD && how < 3) CHECK(a <= 24, "the storage does not grow geometrically");
      sx_reach("grow"); obs_mon();
    }
    all_returned();
  }
}
extern "C" void grow_EN() { grow<Kind(KK), EN>(); }
#else
#include "flat.h"
using namespace hx;
inline u32 work_of() { return g.made + g.cassigns + g.massigns; }
template <class F> void work() {
  typedef typename F::type C; typedef typename F::key K; typedef typename F::mapped M; typedef typename F::value V; constexpr u32 per = F::map ? 2 : 1;
  {
    static const u32 sizes[] = {0, 1, 2, 3, 7, 8, 15, 16, 20};
    Fm m; m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55; const u32 op = (u32)sx_range("op", 0, 18), n = sizes[pick("n", 0, F::unord ? 5 : 8)];
    C c{typename F::cmp(m.dir, m.id)}; const C& k = c;
    const int eq = F::multi ? (n <= 3 ? 0 : 1 + (int)pick("eq", 0, 1)) : 0;
    fbuild<F>(c, m, FShape{n, F::stat ? 0u : 3u * (u32)pick("b", 0, 1)}, eq);
    u32 lg = 0; while ((1u << lg) <= n) lg++;                     // floor(log2(n)) + 1
    const u32 one = F::unord ? n + 1 : lg + 2, two = F::unord ? 2 * n + 2 : 2 * lg + 4;
    Ent e = fresh_ent(); const K kk(e.k, e.t); Probe pr{e.k, e.t}; // position and number of the elements equivalent to e, decided before the operation
    u32 at = 0, cnt = 0; for (u32 i = 0; i < n; i++) { const u32 x = m.e[i].k; if (!F::unord && sx_conc(m.dir ? x > e.k : x < e.k)) { at++; continue; } if (sx_conc(x == e.k)) { cnt++; if (!F::multi) break; } else if (!F::unord) break; }
    const bool hit = cnt; V nv(mk<F>(e)); M mv(e.m); (void)mv;
    const u32 c0 = g.cmps, w0 = work_of(), a0 = g.nalloc, s0 = (u32)c.size();
    auto cmps = [&] { return g.cmps - c0; }; auto work = [&] { return work_of() - w0; };
    auto look = [&](u32 lim, const char* msg) { CHECK(cmps() <= lim, msg); CHECK(work() == 0, "a lookup constructs or assigns elements"); CHECK(g.nalloc == a0, "a lookup allocates"); };
    auto ins = [&](u32 made, const char* msg) { CHECK(cmps() <= (F::multi && F::unord ? 0 : two), msg);
      if (c.size() > s0 || hit) { const u32 d = F::unord ? 0 : n - at; CHECK(work() <= per * (2 * (g.nalloc != a0 ? n : d) + 3) + made, "an insertion does more than shift the elements behind it"); } };
    switch (op) {
      case 0: { bool r = c.find(kk) != c.end(); CHECK(r == hit, "find()"); look(F::multi && !F::unord ? two : two, "find() does too many comparisons"); sx_reach("find"); break; }
      case 1: { bool r = k.contains(kk); CHECK(r == hit, "contains()"); look(two, "contains() does too many comparisons"); sx_reach("contains"); break; }
      case 2: { usz r = k.count(kk); CHECK(r == cnt, "count()"); look(two, "count() does too many comparisons"); sx_reach("count"); break; }
      case 3: if constexpr (requires { c.equal_range(kk); }) { auto r = c.equal_range(kk); CHECK((r.first != r.second) == hit, "equal_range()"); look(F::unord ? 3 * n + 3 : two, "equal_range() does too many comparisons"); sx_reach("equal_range"); } break;
      case 4: if constexpr (requires { k.lower_bound(kk); }) { auto r = k.lower_bound(kk); CHECK(usz(r - k.begin()) == at, "lower_bound()"); look(one, "lower_bound() does too many comparisons"); sx_reach("lower_bound"); } break;
      case 5: if constexpr (requires { k.upper_bound(kk); }) { auto r = k.upper_bound(kk); CHECK(usz(r - k.begin()) == at + cnt, "upper_bound()"); look(one, "upper_bound() does too many comparisons"); sx_reach("upper_bound"); } break;
      case 6: if constexpr (requires { k.find(pr); }) { bool r = k.find(pr) != k.end(); CHECK(r == hit, "find()"); look(two, "heterogeneous find() does too many comparisons"); sx_reach("find(K)"); } break;
      case 7: if constexpr (requires { k.count(pr); k.contains(pr); }) { usz r = k.count(pr); CHECK(r == cnt, "count()"); look(two, "heterogeneous count() does too many comparisons"); sx_reach("count(K)"); } break;
      case 8: if constexpr (requires { k.equal_range(pr); }) { auto r = k.equal_range(pr); CHECK((r.first != r.second) == hit, "equal_range()"); look(F::unord ? 3 * n + 3 : two, "heterogeneous equal_range() does too many comparisons"); sx_reach("equal_range(K)"); } break;
      case 9: if constexpr (requires { k.at(kk); }) { if (!hit) return; (void)k.at(kk); look(two, "at() does too many comparisons"); sx_reach("at"); } break;
      case 10: if constexpr (requires { c[kk]; }) { if (!hit && F::stat && n == STATIC_N) return; (void)c[kk]; ins(2, "operator[] does too many comparisons"); if (hit) CHECK(work() == 0, "operator[] with a present key constructs something"); sx_reach("operator[]"); } break;
      case 11: if constexpr (requires { c.try_emplace(kk, std::move(mv)); }) { (void)c.try_emplace(kk, e.m); ins(2, "try_emplace() does too many comparisons"); if (hit) CHECK(work() == 0 && g.nalloc == a0, "try_emplace() with a present key constructs something"); sx_reach("try_emplace"); } break;
      case 12: { (void)c.insert(std::move(nv)); ins(2, "insert() does too many comparisons"); if (hit && !F::multi) CHECK(work() == 0, "insert() of a present key constructs something"); sx_reach("insert"); break; }
      case 13: { (void)c.erase(kk); CHECK(cmps() <= (F::unord ? 2 * n : two), "erase(key) does too many comparisons"); CHECK(work() <= per * (F::unord ? (F::multi ? 2 * n : 3 * cnt) : 2 * n), "erase(key) does not work in linear time"); if (!cnt) CHECK(work() == 0, "erase() of a missing key changes something"); sx_reach("erase(key)"); break; }
      case 14: { if (!n) return; const u32 p = (u32)pick("p", 0, n - 1); c.erase(c.cbegin() + p); CHECK(cmps() == 0, "erase(pos) compares keys"); CHECK(work() <= per * (F::unord ? 3 : n - p - 1), "erase(pos) does more than close the gap"); sx_reach("erase(pos)"); break; }
      case 15: { C d(c); CHECK(cmps() <= n, "copy construction compares keys"); CHECK(work() <= per * n, "copy construction copies more than the elements"); sx_reach("copy ctor"); break; }
      case 16: { C d; d = c; CHECK(cmps() <= n, "copy assignment compares keys"); CHECK(work() <= per * n, "copy assignment copies more than the elements"); sx_reach("copy assignment"); break; }
      case 17: { c.clear(); CHECK(cmps() == 0 && work() == 0, "clear() does more than destroy the elements"); sx_reach("clear"); break; }
      case 18: if constexpr (!F::stat) { const bool heap = n > SMALL_N || c.capacity() > SMALL_N; C d(std::move(c)); CHECK(cmps() == 0, "move construction compares keys"); if (heap) CHECK(work() == 0, "move construction with heap storage moves elements"); CHECK(d.size() == n, "move construction"); sx_reach("move ctor"); } break;
    }
    obs_mon();
  }
  all_returned();
}
extern "C" void work_EN() { work<Fam<FK, EN, EN, CM_TRANSP, Alloc<u32, 0>>>(); }
#endif
