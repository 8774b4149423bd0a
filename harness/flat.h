// Associative containers: {small,static} x {sorted,unordered} x {set,map,multiset,multimap}.
#pragma once
#include "core.h"
#include "sfl/small_flat_map.hpp"
#include "sfl/small_flat_multimap.hpp"
#include "sfl/small_flat_multiset.hpp"
#include "sfl/small_flat_set.hpp"
#include "sfl/small_unordered_flat_map.hpp"
#include "sfl/small_unordered_flat_multimap.hpp"
#include "sfl/small_unordered_flat_multiset.hpp"
#include "sfl/small_unordered_flat_set.hpp"
#include "sfl/static_flat_map.hpp"
#include "sfl/static_flat_multimap.hpp"
#include "sfl/static_flat_multiset.hpp"
#include "sfl/static_flat_set.hpp"
#include "sfl/static_unordered_flat_map.hpp"
#include "sfl/static_unordered_flat_multimap.hpp"
#include "sfl/static_unordered_flat_multiset.hpp"
#include "sfl/static_unordered_flat_set.hpp"

namespace hx {

enum { MAP = 1, MULTI = 2, UNORD = 4, STAT = 8 };
#ifndef SMALL_N
#define SMALL_N 2
#endif
#ifndef STATIC_N
#define STATIC_N 5
#endif

// Comparator / key equality: stateful (dir reverses the order, id identifies the object),
// optionally transparent, optionally a fault point.
template <bool T> struct TrBase {};
template <> struct TrBase<true> { typedef void is_transparent; };
enum { CM_UNORD = 1, CM_TRANSP = 2, CM_THROW = 4 };
template <class K> inline u32 kv(const K& k) { return val(k); }
inline u32 kv(const Probe& p) { return p.v; }
template <int F> struct Cm : TrBase<(F & CM_TRANSP) != 0> {
  u32 dir, id;
  Cm(u32 d = 0, u32 i = 0) : dir(d), id(i) {}
  bool cmp(u32 a, u32 b) const {
    g.cmps++;
    if (F & CM_THROW) { g.in_cmp = true; point(); g.in_cmp = false; }
    if (F & CM_UNORD) return a == b;
    return dir ? b < a : a < b;
  }
  template <class A, class B> requires((F & CM_TRANSP) != 0 || std::is_same_v<A, B>)
  bool operator()(const A& a, const B& b) const { return cmp(kv(a), kv(b)); }
};

template <int FX, class K, class T, class C, class A> struct FlatOf;
#define FLATOF(fk, ...) template <class K, class T, class C, class A> struct FlatOf<fk, K, T, C, A> { typedef __VA_ARGS__ type; };
FLATOF(0, sfl::small_flat_set<K, SMALL_N, C, A>)
FLATOF(MAP, sfl::small_flat_map<K, T, SMALL_N, C, A>)
FLATOF(MULTI, sfl::small_flat_multiset<K, SMALL_N, C, A>)
FLATOF(MAP | MULTI, sfl::small_flat_multimap<K, T, SMALL_N, C, A>)
FLATOF(UNORD, sfl::small_unordered_flat_set<K, SMALL_N, C, A>)
FLATOF(UNORD | MAP, sfl::small_unordered_flat_map<K, T, SMALL_N, C, A>)
FLATOF(UNORD | MULTI, sfl::small_unordered_flat_multiset<K, SMALL_N, C, A>)
FLATOF(UNORD | MAP | MULTI, sfl::small_unordered_flat_multimap<K, T, SMALL_N, C, A>)
FLATOF(STAT, sfl::static_flat_set<K, STATIC_N, C>)
FLATOF(STAT | MAP, sfl::static_flat_map<K, T, STATIC_N, C>)
FLATOF(STAT | MULTI, sfl::static_flat_multiset<K, STATIC_N, C>)
FLATOF(STAT | MAP | MULTI, sfl::static_flat_multimap<K, T, STATIC_N, C>)
FLATOF(STAT | UNORD, sfl::static_unordered_flat_set<K, STATIC_N, C>)
FLATOF(STAT | UNORD | MAP, sfl::static_unordered_flat_map<K, T, STATIC_N, C>)
FLATOF(STAT | UNORD | MULTI, sfl::static_unordered_flat_multiset<K, STATIC_N, C>)
FLATOF(STAT | UNORD | MAP | MULTI, sfl::static_unordered_flat_multimap<K, T, STATIC_N, C>)

// One family = everything the harness needs to know about a container type.
template <int FX, class K, class M, int CF, class A> struct Fam {
  enum : int { fk = FX };
  static constexpr bool map = FX & MAP, multi = FX & MULTI, unord = FX & UNORD, stat = FX & STAT;
  typedef K key; typedef M mapped;
  typedef Cm<CF | ((FX & UNORD) ? CM_UNORD : 0)> cmp;
  typedef std::conditional_t<map, std::pair<K, M>, K> value;
  typedef A alloc;
  typedef typename FlatOf<FX, K, M, cmp, typename std::allocator_traits<A>::template rebind_alloc<value>>::type type;
};

template <class K> inline const K& keyof(const K& k) { return k; }
template <class K, class M> inline const K& keyof(const std::pair<K, M>& p) { return p.first; }
template <class K> inline u32 mapval(const K&) { return 0; }
template <class K, class M> inline u32 mapval(const std::pair<K, M>& p) { return val(p.second); }
template <class V> inline bool valive(const V& v) { return alive(v); }
template <class K, class M> inline bool valive(const std::pair<K, M>& p) { return alive(p.first) && alive(p.second); }

// ---------------------------------------------------------------- abstract multiset
struct Ent { u32 k = 0, t = 0, m = 0; };
inline u32 serial = 0;
inline Ent fresh_ent() { Ent e; e.k = sx_u32("k"); e.t = ++serial; e.m = sx_u32("m"); return e; }
struct Fm {
  u32 n = 0; Ent e[MCAP]; u32 dir = 0, id = 0;
  int find(u32 k) const { for (u32 i = 0; i < n; i++) if (e[i].k == k) return (int)i; return -1; }
  u32 count(u32 k) const { u32 r = 0; for (u32 i = 0; i < n; i++) if (e[i].k == k) r++; return r; }
  int by_tag(u32 t) const { for (u32 i = 0; i < n; i++) if (e[i].t == t) return (int)i; return -1; }
  void add(const Ent& x) { e[n++] = x; }
  void del(u32 i) { for (; i + 1 < n; i++) e[i] = e[i + 1]; n--; }
};
template <class F> typename F::value mk(const Ent& e) {
  if constexpr (F::map) return typename F::value(std::piecewise_construct, std::forward_as_tuple(e.k, e.t), std::forward_as_tuple(e.m)); else return typename F::value(e.k, e.t);
}

// ---------------------------------------------------------------- observation
template <class F> const typename F::cmp cmp_of(const typename F::type& c) { if constexpr (F::unord) return c.key_eq(); else return c.key_comp(); }
template <class F> void fsame(typename F::type& c, const Fm& m) {
  const typename F::type& k = c;
  CHECK(k.size() == m.n, "size() differs from the abstract container");
  CHECK(k.empty() == (m.n == 0), "empty() is wrong");
  CHECK(k.capacity() >= k.size(), "capacity() < size()");
  CHECK(usz(k.end() - k.begin()) == m.n, "end() - begin() differs from size()");
  bool seen[MCAP] = {};
  u32 i = 0, prev = 0;
  for (auto it = k.begin(); it != k.end(); ++it, ++i) {
    CHECK(i < m.n, "iteration visits too many elements");
    CHECK(valive(*it), "element is not alive");
    int j = m.by_tag(tagof(keyof(*it)));
    CHECK(j >= 0, "container holds an element it should not hold");
    CHECK(!seen[j], "container holds an element twice"); seen[j] = true;
    CHECK(val(keyof(*it)) == m.e[j].k, "key of an element changed");
    if (F::map) CHECK(mapval(*it) == m.e[j].m, "mapped value differs from the abstract container");
    if (!F::unord && i) {
      u32 a = m.dir ? m.e[j].k : prev, b = m.dir ? prev : m.e[j].k;
      if (F::multi) CHECK(a <= b, "elements are not sorted"); else CHECK(a < b, "elements are not strictly sorted");
    }
    prev = m.e[j].k;
  }
  CHECK(i == m.n, "iteration visits too few elements");
  auto cm = cmp_of<F>(c);
  CHECK(cm.id == m.id && cm.dir == m.dir, "the container lost its comparison object");
}
template <class F> void fobservers(typename F::type& c, const Fm& m) {
  fsame<F>(c, m);
  const typename F::type& k = c;
  u32 n = m.n, i;
  CHECK(k.cbegin() == k.begin() && k.cend() == k.end() && c.begin() == k.begin() && c.end() == k.end(), "begin()/end() overloads differ");
  if constexpr (requires { c.rbegin(); c.data(); }) {
    i = n; for (auto it = c.rbegin(); it != c.rend(); ++it) { CHECK(i > 0, "reverse iteration too long"); --i; CHECK(AD %*it == c.data() + i, "reverse iteration differs"); } CHECK(i == 0, "reverse iteration too short");
    i = n; for (auto it = k.crbegin(); it != k.crend(); ++it) { CHECK(i > 0, "reverse iteration too long"); --i; CHECK(AD %*it == k.data() + i, "reverse iteration differs"); }
    i = n; for (auto it = k.rbegin(); it != k.rend(); ++it) { CHECK(i > 0, "reverse iteration too long"); --i; CHECK(AD %*it == k.data() + i, "reverse iteration differs"); }
  }
  i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) {
    if constexpr (requires { c.data(); }) CHECK(AD %*it == c.data() + i && AD %*it == k.data() + i, "data() is not the element array");
    CHECK(AD %*c.nth(i) == AD %*it && AD %*k.nth(i) == AD %*it, "nth() refers to a different object");
    CHECK(c.index_of(it) == i && k.index_of(k.begin() + i) == i, "index_of() is not the inverse of nth()");
  }
  CHECK(c.nth(n) == c.end() && k.nth(n) == k.end() && k.index_of(k.end()) == n, "nth(size()) / index_of(end())");
  CHECK(k.available() == k.capacity() - k.size(), "available()");
  if constexpr (requires { k.full(); }) CHECK(k.full() == (k.capacity() == k.size()), "full()");
  CHECK(k.max_size() >= k.size(), "max_size() < size()");
}
template <class F> void fvalid(typename F::type& c) {  // after an exception: valid, invariant intact
  const typename F::type& k = c;
  usz n = k.size();
  CHECK(usz(k.end() - k.begin()) == n && k.empty() == (n == 0) && k.capacity() >= n, "observers disagree after an exception");
  usz i = 0;
  for (auto it = k.begin(); it != k.end(); ++it, ++i) { CHECK(i < n, "iteration too long after an exception"); CHECK(valive(*it), "container holds an object that is not alive after an exception"); }
}

// order / uniqueness of whatever the container holds
template <class F> void forder(typename F::type& c, u32 dir, const char* w) {
  const typename F::type& k = c;
  if constexpr (!F::unord) {
    for (auto it = k.begin(); it != k.end(); ++it) if (it != k.begin()) { u32 x = kv(keyof(*(it - 1))), y = kv(keyof(*it)); u32 a = dir ? y : x, b = dir ? x : y; CHECK(F::multi ? a <= b : a < b, w); }
  } else if constexpr (!F::multi) {
    for (auto it = k.begin(); it != k.end(); ++it) for (auto j = k.begin(); j != it; ++j) CHECK(kv(keyof(*it)) != kv(keyof(*j)), w);
  }
}

template <class F> void fobs(typename F::type& c) { sx_obs(c.size()); sx_obs(c.capacity()); for (auto& x : c) if (valive(x)) { sx_obs(val_any(keyof(x))); sx_obs(tagof(keyof(x))); if constexpr (F::map) sx_obs(val_any(x.second)); } obs_mon(); }
// ---------------------------------------------------------------- arbitrary states
// n entries in container order (sorted by the comparator / arbitrary for unordered), b slots of
// slack in heap storage.  unique containers: keys distinct.
struct FShape { u32 n, b; };
template <class F> FShape fshape(u32 nmax, u32 bmax) {
  FShape s; s.n = (u32)pick("n", 0, nmax); s.b = F::stat ? 0 : (u32)pick("b", 0, bmax); return s;
}
template <class F> void fbuild(typename F::type& c, Fm& m, const FShape& s, int eq = 0) {   // eq (multi): 0 anything, 1 distinct keys, 2 one key
  if constexpr (!F::stat) { if (s.b) c.reserve(s.n + s.b); }
  for (u32 i = 0; i < s.n; i++) {
    Ent e = fresh_ent();
    if (!F::unord) { if (i) { u32 a = m.dir ? e.k : m.e[i - 1].k, b = m.dir ? m.e[i - 1].k : e.k; sx_assume(F::multi ? a <= b : a < b); } }
    else if (!F::multi) for (u32 j = 0; j < i; j++) sx_assume(e.k != m.e[j].k);
    if (F::multi && eq && i) { if (eq == 2) sx_assume(e.k == m.e[0].k); else if (!F::unord) sx_assume(e.k != m.e[i - 1].k); }
    m.add(e);
    if constexpr (F::map) c.emplace(std::piecewise_construct, std::forward_as_tuple(e.k, e.t), std::forward_as_tuple(e.m)); else c.emplace(e.k, e.t);
  }
}

// ---------------------------------------------------------------- operations
enum FOp : u32 {
  F_INS_C, F_INS_M, F_INS_P, F_EMPL, F_INS_RFW, F_INS_RIN, F_INS_IL, F_INS_HET,         // 0..7
  F_HINS_C, F_HINS_M, F_HINS_P, F_HEMPL, F_HINS_HET,                                     // 8..12
  F_ER_POS, F_ER_CPOS, F_ER_RANGE, F_ER_KEY, F_ER_HET, F_CLEAR, F_ERASE_IF,              // 13..19
  F_RESERVE, F_SHRINK, F_COPY_ASG, F_MOVE_ASG, F_IL_ASG, F_SWAP_M, F_SWAP_F, F_SELF,     // 20..27
  F_IOA_C, F_IOA_M, F_IOA_K, F_TRY_C, F_TRY_M, F_TRY_K,                                  // 28..33
  F_HIOA_C, F_HIOA_M, F_HIOA_K, F_HTRY_C, F_HTRY_M, F_HTRY_K,                            // 34..39
  F_SUB_C, F_SUB_M, F_SUB_K, F_AT, F_CAT, F_AT_HET, F_WRITE,                             // 40..46
  NFOP
};
struct FNoHook { void operator()() const {} };

static bool hx_lv;  // the argument of the last operation was an lvalue
template <class F, class Pre = FNoHook, class Post = FNoHook>
void fstep(typename F::type& c, Fm& m, u32 op, u32 kmax, Pre pre = Pre(), Post post = Post()) {
  typedef typename F::type C; typedef typename F::value V; typedef typename F::key K; typedef typename F::mapped M;
  typedef typename C::iterator It_; typedef typename C::const_iterator CIt;
  constexpr bool cp = std::is_copy_constructible<V>::value, mv = std::is_move_constructible<V>::value;
  const u32 n = m.n, room = F::stat ? STATIC_N - n : 100;
  // expectation for a single insertion of e
  auto hit = [&](const Ent& e) { return F::multi ? -1 : m.find(e.k); };
  auto hint = [&] { return (u32)pick("h", 0, n); };
  auto done = [&](const Ent& e, int i, auto r, const char* w) {
    It_ it;
    if constexpr (requires { r.second; }) { CHECK(r.second == (i < 0), "insertion reports the wrong outcome"); it = r.first; } else it = r;
    CHECK(c.begin() <= it && it < c.end(), "insertion returns an iterator outside the container");
    CHECK(tagof(keyof(*it)) == (i < 0 ? e.t : m.e[i].t), "insertion returns an iterator to another element");
    if (i < 0) m.add(e);
    sx_reach(w);
  };
  auto assigned = [&](const Ent& e, int i, auto r, const char* w) { if (i >= 0) m.e[i].m = e.m; done(e, i, r, w); };
  switch (op) {
    case F_INS_C: if constexpr (cp) { if (!room) return; Ent e = fresh_ent(); const V v(mk<F>(e)); int i = hit(e); pre(); auto r = c.insert(v); post(); CHECK(tagof(keyof(v)) == e.t && val(keyof(v)) == e.k && mapval(v) == (F::map ? e.m : 0), "insert(const&) changed its argument"); done(e, i, r, "insert(const&)"); } break;
    case F_INS_M: if constexpr (mv) { if (!room) return; Ent e = fresh_ent(); V v(mk<F>(e)); int i = hit(e); pre(); auto r = c.insert(std::move(v)); post(); done(e, i, r, "insert(&&)"); } break;
    case F_INS_P: if constexpr (F::map && cp) { if (!room) return; Ent e = fresh_ent(); typedef std::pair<Probe, M> PP; if constexpr (std::is_constructible_v<V, PP&> && std::is_constructible_v<V, PP>) { const bool lv = hx_lv = pick("how", 0, 1); PP p(std::piecewise_construct, std::forward_as_tuple(Probe{e.k, e.t}), std::forward_as_tuple(e.m)); int i = hit(e); pre(); auto r = lv ? c.insert(p) : c.insert(std::move(p)); post(); if (lv) CHECK(val(p.second) == e.m, "insert(P&&) consumed an lvalue"); done(e, i, r, "insert(P&&)"); } } break;
    case F_EMPL: { if (!room) return; Ent e = fresh_ent(); int i = hit(e); if constexpr (F::map) { pre(); auto r = c.emplace(std::piecewise_construct, std::forward_as_tuple(e.k, e.t), std::forward_as_tuple(e.m)); post(); done(e, i, r, "emplace"); } else { pre(); auto r = c.emplace(e.k, e.t); post(); done(e, i, r, "emplace"); } break; }
    case F_INS_RFW: case F_INS_RIN: case F_INS_IL: if constexpr (cp) {
      u32 kk = op == F_INS_IL ? 2 : (u32)pick("k", 0, room < kmax ? room : kmax); if (kk > room) return;
      alignas(V) unsigned char buf[sizeof(V) * 4]; V* b = reinterpret_cast<V*>(buf); Ent es[4]; u32 bn = 0;
      struct R { V* b; u32& n; ~R() { while (n) b[--n].~V(); } } rr{b, bn};
      for (; bn < kk; bn++) { es[bn] = fresh_ent(); ::new ((void*)(b + bn)) V(mk<F>(es[bn])); }
      u32 pos = 0;
      if (op == F_INS_RFW) { pre(); c.insert(FwIt<V>(b), FwIt<V>(b + kk)); post(); }
      else if (op == F_INS_RIN) { pre(); c.insert(InIt<V>(b, &pos), InIt<V>(b + kk, &pos)); post(); }
      else { std::initializer_list<V> il = {b[0], b[1]}; pre(); c.insert(il); post(); }
      for (u32 i = 0; i < kk; i++) if (F::multi || m.find(es[i].k) < 0) m.add(es[i]);
      sx_reach(op == F_INS_RFW ? "insert(fwd range)" : op == F_INS_RIN ? "insert(input range)" : "insert(ilist)");
    } break;
    case F_INS_HET: if constexpr (!F::map && requires(Probe p) { c.insert(p); }) { if (!room) return; Ent e = fresh_ent(); Probe p{e.k, e.t}; int i = hit(e); pre(); auto r = c.insert(p); post(); done(e, i, r, "insert(K&&)"); } break;
    case F_HINS_C: if constexpr (cp) { if (!room) return; Ent e = fresh_ent(); const V v(mk<F>(e)); u32 h = hint(); int i = hit(e); pre(); It_ r = c.insert(c.begin() + h, v); post(); done(e, i, r, "insert(hint,const&)"); } break;
    case F_HINS_M: if constexpr (mv) { if (!room) return; Ent e = fresh_ent(); V v(mk<F>(e)); u32 h = hint(); int i = hit(e); pre(); It_ r = c.insert(c.cbegin() + h, std::move(v)); post(); done(e, i, r, "insert(hint,&&)"); } break;
    case F_HINS_P: if constexpr (F::map && cp) { if (!room) return; Ent e = fresh_ent(); typedef std::pair<Probe, M> PP; if constexpr (std::is_constructible_v<V, PP&> && std::is_constructible_v<V, PP>) { const bool lv = hx_lv = pick("how", 0, 1); PP p(std::piecewise_construct, std::forward_as_tuple(Probe{e.k, e.t}), std::forward_as_tuple(e.m)); u32 h = hint(); int i = hit(e); pre(); It_ r = lv ? c.insert(c.cbegin() + h, p) : c.insert(c.cbegin() + h, std::move(p)); post(); if (lv) CHECK(val(p.second) == e.m, "insert(hint,P&&) consumed an lvalue"); done(e, i, r, "insert(hint,P&&)"); } } break;
    case F_HEMPL: { if (!room) return; Ent e = fresh_ent(); u32 h = hint(); int i = hit(e); if constexpr (F::map) { pre(); It_ r = c.emplace_hint(c.cbegin() + h, std::piecewise_construct, std::forward_as_tuple(e.k, e.t), std::forward_as_tuple(e.m)); post(); done(e, i, r, "emplace_hint"); } else { pre(); It_ r = c.emplace_hint(c.cbegin() + h, e.k, e.t); post(); done(e, i, r, "emplace_hint"); } break; }
    case F_HINS_HET: if constexpr (!F::map && requires(Probe p) { c.insert(p); c.insert(c.cbegin(), p); }) { if (!room) return; Ent e = fresh_ent(); Probe p{e.k, e.t}; u32 h = hint(); int i = hit(e); pre(); It_ r = c.insert(c.cbegin() + h, p); post(); done(e, i, r, "insert(hint,K&&)"); } break;
    case F_ER_POS: case F_ER_CPOS: case F_ER_RANGE: {
      if (op != F_ER_RANGE && !n) return;
      u32 p = (u32)pick("p", 0, op == F_ER_RANGE ? n : n - 1), q = op == F_ER_RANGE ? (u32)pick("q", p, n) : p + 1;
      u32 tags[MCAP]; for (u32 i = 0; i < n; i++) tags[i] = tagof(keyof(*c.nth(i)));
      It_ r; pre();
      if (op == F_ER_POS) r = c.erase(c.begin() + p); else if (op == F_ER_CPOS) r = c.erase(c.cbegin() + p); else r = c.erase(c.cbegin() + p, c.cbegin() + q);
      post();
      for (u32 i = p; i < q; i++) m.del((u32)m.by_tag(tags[i]));
      CHECK(c.size() == n - (q - p), "erase() removed the wrong number of elements");
      CHECK(r == c.nth(p), "erase() return value");
      // elements before/after the erased ones stay before/after the returned iterator
      for (u32 i = 0; i < p; i++) { bool f = false; for (u32 j = 0; j < p; j++) f |= tagof(keyof(*c.nth(j))) == tags[i]; CHECK(f, "erase() moved an element across the returned position"); }
      for (u32 i = q; i < n; i++) { bool f = false; for (u32 j = p; j < c.size(); j++) f |= tagof(keyof(*c.nth(j))) == tags[i]; CHECK(f, "erase() moved an element across the returned position"); }
      sx_reach(op == F_ER_RANGE ? "erase(first,last)" : op == F_ER_POS ? "erase(iterator)" : "erase(const_iterator)"); break; }
    case F_ER_KEY: case F_ER_HET: {
      Ent e = fresh_ent(); usz r; u32 want = m.count(e.k);
      if (op == F_ER_KEY) { const K k(e.k, e.t); pre(); r = c.erase(k); post(); }
      else { if constexpr (requires(Probe p) { c.erase(p); }) { Probe p{e.k, e.t}; pre(); r = c.erase(p); post(); } else return; }
      CHECK(r == want, "erase(key) return value");
      for (u32 i = n; i-- > 0;) if (m.e[i].k == e.k) m.del(i);
      sx_reach(op == F_ER_KEY ? "erase(key)" : "erase(K&&)"); break; }
    case F_CLEAR: { usz cap = c.capacity(); pre(); c.clear(); post(); m.n = 0; CHECK(c.capacity() == cap, "clear() changed capacity()"); sx_reach("clear"); break; }
    case F_ERASE_IF: { u32 x = sx_u32("x"), calls = 0; pre(); usz r = sfl::erase_if(c, [&](const V& v) { calls++; return val(keyof(v)) <= x; }); post(); CHECK(calls == n, "erase_if() does not apply the predicate exactly once per element"); u32 rem = 0; for (u32 i = n; i-- > 0;) if (m.e[i].k <= x) { m.del(i); rem++; } CHECK(r == rem, "erase_if() return value"); sx_reach("erase_if"); break; }
    case F_RESERVE: if constexpr (!F::stat) { u32 k = (u32)pick("k", 0, n + 3); usz cap = c.capacity(); pre(); c.reserve(k); post(); CHECK(c.capacity() >= k && c.capacity() >= cap, "reserve() did not provide the capacity"); sx_reach("reserve"); } break;
    case F_SHRINK: if constexpr (!F::stat) { usz cap = c.capacity(); pre(); c.shrink_to_fit(); post(); CHECK(c.capacity() <= cap && c.capacity() >= n, "shrink_to_fit() capacity"); sx_reach("shrink_to_fit"); } break;
    case F_COPY_ASG: case F_MOVE_ASG: case F_SWAP_M: case F_SWAP_F: {
      if constexpr (!cp) if (op == F_COPY_ASG) return;
      Fm dm; dm.dir = (u32)pick("dir2", 0, F::unord ? 0 : 1); dm.id = 77;
      C d{typename F::cmp(dm.dir, dm.id)};
      fbuild<F>(d, dm, fshape<F>(F::stat ? 4 : 3, 1));
      if (op == F_COPY_ASG) { if constexpr (cp) { pre(); C& r = (c = d); post(); CHECK(AD %r == &c, "copy assignment return value"); fsame<F>(d, dm); m = dm; sx_reach("copy assignment"); } }
      else if (op == F_MOVE_ASG) { pre(); C& r = (c = std::move(d)); post(); CHECK(AD %r == &c, "move assignment return value"); fvalid<F>(d); m = dm; sx_reach("move assignment"); }
      else { pre(); if (op == F_SWAP_M) c.swap(d); else { using std::swap; swap(c, d); } post(); fsame<F>(d, m); m = dm; sx_reach(op == F_SWAP_M ? "swap(member)" : "swap(free)"); }
      break; }
    case F_IL_ASG: if constexpr (cp) { Ent e[2] = {fresh_ent(), fresh_ent()}; std::initializer_list<V> il = {mk<F>(e[0]), mk<F>(e[1])}; pre(); C& r = (c = il); post(); CHECK(AD %r == &c, "operator=(ilist) return value"); m.n = 0; for (int i = 0; i < 2; i++) if (F::multi || m.find(e[i].k) < 0) m.add(e[i]); sx_reach("operator=(ilist)"); } break;
    case F_SELF: if constexpr (cp) { C& a = c; pre(); c = a; post(); sx_reach("self copy assignment"); } break;
    // ---- maps
    case F_IOA_C: case F_IOA_M: case F_IOA_K: case F_HIOA_C: case F_HIOA_M: case F_HIOA_K:
      if constexpr (requires(K k, u32 x) { c.insert_or_assign(std::move(k), x); }) {
        if (!room) return; Ent e = fresh_ent(); const bool hn = op >= F_HIOA_C; u32 h = hn ? hint() : 0; int i = hit(e); CIt hi = c.cbegin() + h; M v(e.m);
        auto with = [&](auto&& k, const char* w, const char* wh) {
          auto go = [&](auto&& o) { pre(); if (!hn) { auto r = c.insert_or_assign(std::forward<decltype(k)>(k), std::forward<decltype(o)>(o)); post(); if (hx_lv) CHECK(val(v) == e.m, "insert_or_assign() consumed an lvalue"); assigned(e, i, r, w); } else { It_ r = c.insert_or_assign(hi, std::forward<decltype(k)>(k), std::forward<decltype(o)>(o)); post(); if (hx_lv) CHECK(val(v) == e.m, "insert_or_assign(hint) consumed an lvalue"); assigned(e, i, r, wh); } };
          u32 how = 0; if constexpr (cp) how = (u32)pick("how", 0, 2);
          hx_lv = how > 0;
          if (how == 0) go(std::move(v)); else if constexpr (cp) { if (how == 1) go(v); else go(std::as_const(v)); }
        };
        if (op == F_IOA_C || op == F_HIOA_C) { if constexpr (cp) { const K k(e.k, e.t); with(k, "insert_or_assign(const&)", "insert_or_assign(hint,const&)"); } }
        else if (op == F_IOA_M || op == F_HIOA_M) { K k(e.k, e.t); with(std::move(k), "insert_or_assign(&&)", "insert_or_assign(hint,&&)"); }
        else if constexpr (requires(Probe p, M w) { c.insert_or_assign(p, std::move(w)); }) { Probe k{e.k, e.t}; with(k, "insert_or_assign(K&&)", "insert_or_assign(hint,K&&)"); }
      } break;
    case F_TRY_C: case F_TRY_M: case F_TRY_K: case F_HTRY_C: case F_HTRY_M: case F_HTRY_K:
      if constexpr (requires(K k, u32 x) { c.try_emplace(std::move(k), x); }) {
        if (!room) return; Ent e = fresh_ent(); const bool hn = op >= F_HTRY_C; u32 h = hn ? hint() : 0; int i = hit(e); CIt hi = c.cbegin() + h; M v(e.m);
        auto kept = [&] { if (i >= 0) CHECK(val(v) == e.m, "try_emplace() on an existing key consumed the mapped argument"); };
        if (op == F_TRY_C || op == F_HTRY_C) { if constexpr (cp) { const K k(e.k, e.t); if (!hn) { pre(); auto r = c.try_emplace(k, std::move(v)); post(); kept(); done(e, i, r, "try_emplace(const&)"); } else { pre(); It_ r = c.try_emplace(hi, k, std::move(v)); post(); kept(); done(e, i, r, "try_emplace(hint,const&)"); } } }
        else if (op == F_TRY_M || op == F_HTRY_M) { K k(e.k, e.t); if (!hn) { pre(); auto r = c.try_emplace(std::move(k), std::move(v)); post(); kept(); if (i >= 0) CHECK(val(k) == e.k, "try_emplace() on an existing key consumed the key argument"); done(e, i, r, "try_emplace(&&)"); } else { pre(); It_ r = c.try_emplace(hi, std::move(k), std::move(v)); post(); kept(); done(e, i, r, "try_emplace(hint,&&)"); } }
        else if constexpr (requires(Probe p, M w) { c.try_emplace(p, std::move(w)); }) { Probe k{e.k, e.t}; if (!hn) { pre(); auto r = c.try_emplace(k, std::move(v)); post(); kept(); done(e, i, r, "try_emplace(K&&)"); } else { pre(); It_ r = c.try_emplace(hi, k, std::move(v)); post(); kept(); done(e, i, r, "try_emplace(hint,K&&)"); } }
      } break;
    case F_SUB_C: case F_SUB_M: case F_SUB_K:
      if constexpr (requires(K k) { c[std::move(k)]; }) {
        if (!room) return; Ent e = fresh_ent(); e.m = is_tracked<M>::value ? DEFV : 0; int i = hit(e); M* r;
        if (op == F_SUB_C) { if constexpr (cp) { const K k(e.k, e.t); pre(); r = AD %c[k]; post(); } else return; }
        else if (op == F_SUB_M) { K k(e.k, e.t); pre(); r = AD %c[std::move(k)]; post(); }
        else { if constexpr (requires(Probe p) { c[p]; }) { Probe p{e.k, e.t}; pre(); r = AD %c[p]; post(); } else return; }
        CHECK(val(*r) == (i < 0 ? e.m : m.e[i].m), "operator[] refers to another value");
        u32 x = sx_u32("x"); setv(*r, x); e.m = x;
        if (i < 0) m.add(e); else m.e[i].m = x;
        sx_reach(op == F_SUB_C ? "operator[](const&)" : op == F_SUB_M ? "operator[](&&)" : "operator[](K&&)");
      } break;
    case F_AT: case F_CAT: case F_AT_HET:
      if constexpr (requires(K k) { c.at(k); }) {
        Ent e = fresh_ent(); int i = m.find(e.k); const C& cc = c; const M* r = nullptr; bool out = false;
#ifdef SFL_NO_EXCEPTIONS
        if (i < 0) { sx_reach("at(missing key)"); sx_expect_abort(1); }
          if (op == F_AT_HET) { if constexpr (requires(Probe p) { c.at(p); }) { Probe p{e.k, 0}; CHECK((i < 0) || AD %c.at(p) == AD %cc.at(p), "at() overloads differ"); if (i < 0) r = AD %c.at(p); else r = AD %cc.at(p); } else return; }
          else { const K k(e.k, e.t); r = op == F_AT ? AD %c.at(k) : AD %cc.at(k); }
        if (i < 0) sx_fail("at() with a missing key returned instead of calling std::abort");
#else
        try {
          if (op == F_AT_HET) { if constexpr (requires(Probe p) { c.at(p); }) { Probe p{e.k, 0}; CHECK((i < 0) || AD %c.at(p) == AD %cc.at(p), "at() overloads differ"); if (i < 0) r = AD %c.at(p); else r = AD %cc.at(p); } else return; }
          else { const K k(e.k, e.t); r = op == F_AT ? AD %c.at(k) : AD %cc.at(k); }
        } catch (const std::out_of_range&) { out = true; }
#endif
        CHECK(out == (i < 0), "at() must throw std::out_of_range exactly when the key is missing");
        if (!out) CHECK(val(*r) == m.e[i].m, "at() refers to another value");
        sx_reach(op == F_AT ? "at(key)" : op == F_CAT ? "at(key) const" : "at(K)");
      } break;
    case F_WRITE: if constexpr (F::map) { if (!n) return; u32 p = (u32)pick("p", 0, n - 1), x = sx_u32("x"); int j = m.by_tag(tagof(keyof(*c.nth(p)))); setv(c.nth(p)->second, x); m.e[j].m = x; sx_reach("write"); } break;
    default: break;
  }
}
} // namespace hx
