// Sequence containers: one template covers vector, devector, compact_vector,
// small_vector, static_vector, segmented_vector and segmented_devector.
#pragma once
#include "core.h"
#include "sfl/compact_vector.hpp"
#include "sfl/devector.hpp"
#include "sfl/segmented_devector.hpp"
#include "sfl/segmented_vector.hpp"
#include "sfl/small_vector.hpp"
#include "sfl/static_vector.hpp"
#include "sfl/vector.hpp"

namespace hx {

enum Kind { VECTOR, DEVECTOR, COMPACT, SMALL, STATIC, SEGV, SEGD };
#ifndef SMALL_N
#define SMALL_N 2
#endif
#ifndef STATIC_N
#define STATIC_N 5
#endif
#ifndef SEG_N
#define SEG_N 2
#endif
template <Kind K, class T, class A> struct SeqOf;
template <class T, class A> struct SeqOf<VECTOR, T, A> { typedef sfl::vector<T, A> type; };
template <class T, class A> struct SeqOf<DEVECTOR, T, A> { typedef sfl::devector<T, A> type; };
template <class T, class A> struct SeqOf<COMPACT, T, A> { typedef sfl::compact_vector<T, A> type; };
template <class T, class A> struct SeqOf<SMALL, T, A> { typedef sfl::small_vector<T, SMALL_N, A> type; };
template <class T, class A> struct SeqOf<STATIC, T, A> { typedef sfl::static_vector<T, STATIC_N> type; };
template <class T, class A> struct SeqOf<SEGV, T, A> { typedef sfl::segmented_vector<T, SEG_N, A> type; };
template <class T, class A> struct SeqOf<SEGD, T, A> { typedef sfl::segmented_devector<T, SEG_N, A> type; };
template <Kind K, class T, class A> using seq_t = typename SeqOf<K, T, A>::type;

template <Kind K> constexpr bool two_ended = (K == DEVECTOR || K == SEGD);
template <Kind K> constexpr bool has_alloc = (K != STATIC);
template <Kind K> constexpr bool contiguous = (K != SEGV && K != SEGD);

enum SeqOp : u32 {
  PUSH_C, PUSH_M, EMPL_B, POP_B,                                  // 0..3
  INS_C, INS_M, EMPL, INS_N, INS_FW, INS_IN, INS_IL,              // 4..10
  ERASE1, ERASE_R, CLEAR, RESIZE, RESIZE_V,                       // 11..15
  ASG_N, ASG_FW, ASG_IN, ASG_IL, OPEQ_IL,                         // 16..20
  RESERVE, SHRINK, WRITE, ERASE_IF, ERASE_VAL,                    // 21..25
  COPY_ASG, MOVE_ASG, SWAP_M, SWAP_F, SELF_ASG,                   // 26..30
  PUSHF_C, PUSHF_M, EMPL_F, POP_F, RESERVE_F, RESERVE_B,          // 31..36
  RESIZE_F, RESIZE_FV, RESIZE_BK, RESIZE_BV, INS_BI, ASG_BI,      // 37..42
  NSEQOP
};

template <class C> struct Info;
template <class T> u32 defval() { return is_tracked<T>::value ? DEFV : 0; }

// Which operations exist for this container and element type.
template <Kind K, class T> constexpr bool has_op(u32 op) {
  constexpr bool cp = std::is_copy_constructible<T>::value, mv = std::is_move_constructible<T>::value;
  switch (op) {
    case PUSH_C: case INS_C: case INS_N: case INS_FW: case INS_IN: case INS_IL: case INS_BI: case RESIZE_V: case ASG_N: case ASG_FW: case ASG_IN: case ASG_BI:
    case ASG_IL: case OPEQ_IL: case COPY_ASG: case SELF_ASG: return cp;
    case PUSH_M: case INS_M: return mv;
    case RESERVE: return K != DEVECTOR && K != SEGD && K != COMPACT && K != STATIC;
    case SHRINK: return K != COMPACT && K != STATIC;
    case PUSHF_C: case RESIZE_FV: return two_ended<K> && cp && (op != RESIZE_FV || true);
    case PUSHF_M: case EMPL_F: case POP_F: case RESIZE_F: case RESIZE_BK: return two_ended<K>;
    case RESIZE_BV: return two_ended<K> && cp;
    case RESERVE_F: case RESERVE_B: return two_ended<K>;
    default: return true;
  }
}

// Source values: k fresh symbolic words.
struct Src { u32 n; u32 x[8]; };
inline Src src(const char* nm, u32 lo, u32 hi) { Src s; s.n = (u32)pick(nm, lo, hi); for (u32 i = 0; i < s.n; i++) s.x[i] = sx_u32("x"); return s; }
template <class T> struct Buf { // raw array of T built from words
  alignas(T) unsigned char m[sizeof(T) * 8]; u32 n;
  T* at(u32 i) { return reinterpret_cast<T*>(m) + i; }
  explicit Buf(const Src& s) : n(0) { for (; n < s.n; n++) ::new ((void*)at(n)) T(s.x[n]); }
  ~Buf() { while (n) at(--n)->~T(); }
  const T* b() { return at(0); } const T* e() { return at(0) + n; }
};

// ---------------------------------------------------------------- observation
// Full comparison of a container with the abstract sequence, through every observer.
template <class C> void same(C& c, const Seq& m) {
  const C& k = c;
  CHECK(k.size() == m.n, "size() differs from the abstract sequence");
  CHECK(k.empty() == (m.n == 0), "empty() is wrong");
  CHECK(k.capacity() >= k.size(), "capacity() < size()");
  CHECK(usz(k.end() - k.begin()) == m.n, "end() - begin() differs from size()");
  u32 i = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++i) { CHECK(i < m.n, "iteration visits too many elements"); CHECK(val(*it) == m.a[i], "element differs from the abstract sequence"); }
  CHECK(i == m.n, "iteration visits too few elements");
  for (i = 0; i < m.n; i++) CHECK(val(k[i]) == m.a[i], "operator[] differs from the abstract sequence");
}
template <class C> void obs_seq(C& c) { sx_obs(c.size()); sx_obs(c.capacity()); for (auto& x : c) if (alive(x)) sx_obs(val_any(x)); }
// cheaper: through iterators only
template <class C> void same1(C& c, const Seq& m) {
  CHECK(c.size() == m.n, "size() differs from the abstract sequence");
  u32 i = 0;
  for (auto it = c.cbegin(); it != c.cend(); ++it, ++i) { CHECK(i < m.n, "iteration visits too many elements"); CHECK(val(*it) == m.a[i], "element differs from the abstract sequence"); }
  CHECK(i == m.n, "iteration visits too few elements");
}
template <class C> void all_observers(C& c, const Seq& m) {
  same(c, m);
  const C& k = c;
  u32 n = m.n;
  CHECK(k.cbegin() == k.begin() && k.cend() == k.end(), "cbegin()/cend() differ from begin()/end()");
  CHECK(c.begin() == k.begin() && c.end() == k.end(), "const and non-const begin()/end() differ");
  CHECK(usz(k.rend() - k.rbegin()) == n, "rend() - rbegin() differs from size()");
  u32 i = n;
  for (auto it = k.rbegin(); it != k.rend(); ++it) { CHECK(i > 0, "reverse iteration too long"); --i; CHECK(val(*it) == m.a[i], "reverse iteration differs"); }
  CHECK(i == 0, "reverse iteration too short");
  i = n;
  for (auto it = c.rbegin(); it != c.rend(); ++it) { CHECK(i > 0, "reverse iteration too long"); --i; CHECK(AD %*it == AD %c[i], "reverse iteration differs"); }
  i = n;
  for (auto it = c.crbegin(); it != c.crend(); ++it) { CHECK(i > 0, "reverse iteration too long"); --i; CHECK(AD %*it == AD %k[i], "reverse iteration differs"); }
  for (i = 0; i < n; i++) {
    CHECK(AD %k[i] == AD %c[i] && AD %c.at(i) == AD %c[i] && AD %k.at(i) == AD %c[i], "at()/operator[] refer to different objects");
    CHECK(AD %*c.nth(i) == AD %c[i] && AD %*k.nth(i) == AD %c[i], "nth() refers to a different object");
    CHECK(c.index_of(c.nth(i)) == i && k.index_of(k.begin() + i) == i, "index_of() is not the inverse of nth()");
  }
  CHECK(c.nth(n) == c.end() && k.nth(n) == k.end() && k.index_of(k.end()) == n, "nth(size()) / index_of(end())");
  if (n) { CHECK(AD %c.front() == AD %c[0] && AD %k.front() == AD %c[0], "front()"); CHECK(AD %c.back() == AD %c[n - 1] && AD %k.back() == AD %c[n - 1], "back()"); }
  if constexpr (requires { c.data(); }) { for (i = 0; i < n; i++) CHECK(c.data() + i == AD %c[i] && k.data() + i == AD %c[i], "data() is not the element array"); }
  if constexpr (requires { k.available(); }) CHECK(k.available() == k.capacity() - k.size(), "available()");
  if constexpr (requires { k.full(); }) CHECK(k.full() == (k.capacity() == k.size()), "full()");
  if constexpr (requires { k.available_front(); }) CHECK(k.available_front() + k.available_back() + k.size() >= k.size(), "available_front()/available_back()");
  CHECK(k.max_size() >= k.size(), "max_size() < size()");
}
// Weak validity, used after an exception: every element is alive, observers agree.
template <class C> void valid(C& c) {
  const C& k = c;
  usz n = k.size();
  CHECK(usz(k.end() - k.begin()) == n && k.empty() == (n == 0) && k.capacity() >= n, "observers disagree after an exception");
  usz i = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++i) { CHECK(i < n, "iteration too long after an exception"); CHECK(alive(*it), "container holds an object that is not alive after an exception"); }
  CHECK(i == n, "iteration too short after an exception");
}

// ---------------------------------------------------------------- arbitrary shapes
// f elements' worth of slack at the front (two-ended containers), b at the back, n elements.
struct Shape { u32 f, n, b; };
template <Kind K> Shape shape(u32 fmax, u32 nmax, u32 bmax) {
  Shape s;
  s.n = (u32)pick("n", 0, nmax);
  s.f = two_ended<K> ? (u32)pick("f", 0, fmax) : 0;
  s.b = K == COMPACT || K == STATIC ? 0 : (u32)pick("b", 0, bmax);
#ifdef WIDE   // much spare storage at one end only
  sx_assume(s.f < WIDE || s.b < WIDE);
#endif
  return s;
}
template <Kind K, class C> void build(C& c, Seq& m, const Shape& s) {
  typedef typename C::value_type T;
  for (u32 i = 0; i < s.f; i++) c.emplace_back(T(0));
  for (u32 i = 0; i < s.n; i++) { u32 x = sx_u32("v"); c.emplace_back(T(x)); m.push(x); }
  for (u32 i = 0; i < s.b; i++) c.emplace_back(T(0));
  if constexpr (requires { c.shrink_to_fit(); }) c.shrink_to_fit();   // exact slack
  for (u32 i = 0; i < s.b; i++) c.pop_back();
  if constexpr (two_ended<K>) for (u32 i = 0; i < s.f; i++) c.pop_front();
}

// ---------------------------------------------------------------- one operation
// Applies operation op with symbolic arguments to container and abstract sequence and
// checks what the operation returns.  kmax bounds counts.  Fault points may be armed by
// the caller through `arm`, called right before the operation itself.
// resize(): new elements go to the end; two-ended containers may put them at either end
// (documented), so there the old elements must appear, in order, at some offset.
template <Kind K, class C> void grown(C& c, Seq& m, u32 k, u32 x) {
  const u32 n = m.n;
  if (!two_ended<K>) { m.fill(n, k - n, x); return; }
  CHECK(c.size() == k, "resize() size");
  Seq got;
  for (u32 i = 0; i < k; i++) got.push(val(c[i]));
  bool any = false;
  for (u32 o = 0; o + n <= k; o++) {
    bool ok = true;
    for (u32 i = 0; i < k; i++) ok = ok & (got.a[i] == (i >= o && i < o + n ? m.a[i - o] : x));
    any = any | ok;
  }
  CHECK(any, "resize() does not keep the old elements in order, surrounded by new ones");
  m = got;
}
struct NoHook { void operator()() const {} };
template <Kind K, class C, class Pre = NoHook, class Post = NoHook>
void step(C& c, Seq& m, u32 op, u32 kmax, Pre pre = Pre(), Post post = Post()) {
  typedef typename C::value_type T;
  constexpr bool cp = std::is_copy_constructible<T>::value, mv = std::is_move_constructible<T>::value && std::is_move_assignable<T>::value;
  (void)mv;
  const u32 n = m.n;
  const u32 room = K == STATIC ? (u32)STATIC_N - n : 100;
  auto fresh = [&] { return sx_u32("x"); };
  auto cnt = [&] { return (u32)pick("k", 0, room < kmax ? room : kmax); };
  auto ret = [&](typename C::iterator r, u32 p, const char* w) { CHECK(r == c.nth(p), w); CHECK(usz(r - c.begin()) == p, w); };
  switch (op) {
    case PUSH_C: if constexpr (cp) { if (room < 1) return; u32 x = fresh(); const T t(x); pre(); c.push_back(t); post(); CHECK(val(t) == x, "push_back(const&) changed its argument"); m.push(x); sx_reach("push_back(const&)"); } break;
    case PUSH_M: if constexpr (has_op<K, T>(PUSH_M)) { if (room < 1) return; u32 x = fresh(); T t(x); pre(); c.push_back(std::move(t)); post(); m.push(x); sx_reach("push_back(&&)"); } break;
    case EMPL_B: { if (room < 1) return; u32 x = fresh(); pre(); auto& r = c.emplace_back(x); post(); m.push(x); CHECK(AD %r == AD %c.back(), "emplace_back() return value"); sx_reach("emplace_back"); break; }
    case POP_B: if (n) { pre(); c.pop_back(); post(); m.n--; sx_reach("pop_back"); } break;
    case INS_C: if constexpr (cp) { if (room < 1) return; u32 p = (u32)pick("p", 0, n), x = fresh(); const T t(x); pre(); auto r = c.insert(c.begin() + p, t); post(); CHECK(val(t) == x, "insert(const&) changed its argument"); m.ins1(p, x); ret(r, p, "insert(pos, const&) return value"); sx_reach("insert(pos,const&)"); } break;
    case INS_M: if constexpr (has_op<K, T>(INS_M)) { if (room < 1) return; u32 p = (u32)pick("p", 0, n), x = fresh(); T t(x); pre(); auto r = c.insert(c.cbegin() + p, std::move(t)); post(); m.ins1(p, x); ret(r, p, "insert(pos, &&) return value"); sx_reach("insert(pos,&&)"); } break;
    case EMPL: { if (room < 1) return; u32 p = (u32)pick("p", 0, n), x = fresh(); pre(); auto r = c.emplace(c.begin() + p, x); post(); m.ins1(p, x); ret(r, p, "emplace() return value"); sx_reach("emplace"); break; }
    case INS_N: if constexpr (cp) { u32 p = (u32)pick("p", 0, n), k = cnt(), x = fresh(); const T t(x); pre(); auto r = c.insert(c.begin() + p, usz(k), t); post(); m.fill(p, k, x); ret(r, p, "insert(pos, n, value) return value"); sx_reach("insert(pos,n,value)"); } break;
    case INS_FW: if constexpr (cp) { u32 p = (u32)pick("p", 0, n); Src s = src("k", 0, room < kmax ? room : kmax); Buf<T> b(s); pre(); auto r = c.insert(c.begin() + p, FwIt<T>(b.b()), FwIt<T>(b.e())); post(); m.ins(p, s.n, s.x); ret(r, p, "insert(pos, forward range) return value"); sx_reach("insert(pos,fwd range)"); } break;
    case INS_BI: if constexpr (cp) { u32 p = (u32)pick("p", 0, n); Src s = src("k", 0, room < kmax ? room : kmax); Buf<T> b(s); pre(); auto r = c.insert(c.begin() + p, b.b(), b.e()); post(); m.ins(p, s.n, s.x); ret(r, p, "insert(pos, pointer range) return value"); sx_reach("insert(pos,pointer range)"); } break;
    case INS_IN: if constexpr (cp) { u32 p = (u32)pick("p", 0, n); Src s = src("k", 0, room < kmax ? room : kmax); Buf<T> b(s); u32 pos = 0; pre(); auto r = c.insert(c.begin() + p, InIt<T>(b.b(), &pos), InIt<T>(b.e(), &pos)); post(); m.ins(p, s.n, s.x); ret(r, p, "insert(pos, input range) return value"); sx_reach("insert(pos,input range)"); } break;
    case INS_IL: if constexpr (cp) { if (room < 2) return; u32 p = (u32)pick("p", 0, n), x[2] = {fresh(), fresh()}; std::initializer_list<T> il = {T(x[0]), T(x[1])}; pre(); auto r = c.insert(c.begin() + p, il); post(); m.ins(p, 2, x); ret(r, p, "insert(pos, ilist) return value"); sx_reach("insert(pos,ilist)"); } break;
    case ERASE1: if (n) { u32 p = (u32)pick("p", 0, n - 1); pre(); auto r = c.erase(c.begin() + p); post(); m.del(p, 1); ret(r, p, "erase(pos) return value"); sx_reach("erase(pos)"); } break;
    case ERASE_R: { u32 p = (u32)pick("p", 0, n), q = (u32)pick("q", p, n); pre(); auto r = c.erase(c.begin() + p, c.begin() + q); post(); m.del(p, q - p); ret(r, p, "erase(first, last) return value"); sx_reach("erase(first,last)"); break; }
    case CLEAR: { usz cap = c.capacity(); pre(); c.clear(); post(); m.n = 0; CHECK(c.size() == 0 && c.begin() == c.end(), "clear()"); if (K != COMPACT) CHECK(c.capacity() == cap, "clear() changed capacity()"); sx_reach("clear"); break; }
    case RESIZE: { u32 k = (u32)pick("k", 0, n + (room < kmax ? room : kmax)); bool di = false; if constexpr (K == STATIC) di = pick("di", 0, 1);
      pre(); if constexpr (K == STATIC) { if (di) { c.resize(k, sfl::default_init_t()); if constexpr (!is_tracked<T>::value) { CHECK(c.size() == k, "size() after resize(n, default_init)"); for (u32 i = n; i < k; i++) c[i] = T(); } } else c.resize(k); } else c.resize(k); post(); if (k < n) m.n = k; else grown<K>(c, m, k, defval<T>()); sx_reach("resize(n)"); break; }
    case RESIZE_V: if constexpr (cp) { u32 k = (u32)pick("k", 0, n + (room < kmax ? room : kmax)), x = fresh(); const T t(x); pre(); c.resize(k, t); post(); if (k < n) m.n = k; else grown<K>(c, m, k, x); sx_reach("resize(n,value)"); } break;
    case ASG_N: if constexpr (cp) { u32 k = (u32)pick("k", 0, K == STATIC ? STATIC_N : 5), x = fresh(); const T t(x); pre(); c.assign(usz(k), t); post(); m.n = 0; m.fill(0, k, x); sx_reach("assign(n,value)"); } break;
    case ASG_FW: if constexpr (cp) { Src s = src("k", 0, 5); Buf<T> b(s); pre(); c.assign(FwIt<T>(b.b()), FwIt<T>(b.e())); post(); m.set(s.n, s.x); sx_reach("assign(fwd range)"); } break;
    case ASG_BI: if constexpr (cp) { Src s = src("k", 0, 5); Buf<T> b(s); pre(); c.assign(b.b(), b.e()); post(); m.set(s.n, s.x); sx_reach("assign(pointer range)"); } break;
    case ASG_IN: if constexpr (cp) { Src s = src("k", 0, 5); Buf<T> b(s); u32 pos = 0; pre(); c.assign(InIt<T>(b.b(), &pos), InIt<T>(b.e(), &pos)); post(); m.set(s.n, s.x); sx_reach("assign(input range)"); } break;
    case ASG_IL: if constexpr (cp) { u32 x[3] = {fresh(), fresh(), fresh()}; std::initializer_list<T> il = {T(x[0]), T(x[1]), T(x[2])}; pre(); c.assign(il); post(); m.set(3, x); sx_reach("assign(ilist)"); } break;
    case OPEQ_IL: if constexpr (cp) { u32 x[3] = {fresh(), fresh(), fresh()}; std::initializer_list<T> il = {T(x[0]), T(x[1]), T(x[2])}; pre(); C& r = (c = il); post(); CHECK(AD %r == &c, "operator=(ilist) return value"); m.set(3, x); sx_reach("operator=(ilist)"); } break;
    case RESERVE: if constexpr (has_op<K, T>(RESERVE)) { u32 k = (u32)pick("k", 0, n + 4); usz cap = c.capacity(); pre(); c.reserve(k); post(); CHECK(c.capacity() >= k && c.capacity() >= cap, "reserve() did not provide the capacity"); sx_reach("reserve"); } break;
    case SHRINK: if constexpr (has_op<K, T>(SHRINK)) { usz cap = c.capacity(); pre(); c.shrink_to_fit(); post(); CHECK(c.capacity() <= cap && c.capacity() >= n, "shrink_to_fit() capacity"); sx_reach("shrink_to_fit"); } break;
    case WRITE: if (n) { u32 p = (u32)pick("p", 0, n - 1), w = (u32)pick("q", 0, 4); u32 x = fresh(); pre(); if (w == 0) setv(c[p], x); else if (w == 1) setv(c.at(p), x); else if (w == 2) setv(*c.nth(p), x); else if (w == 3) { setv(c.front(), x); p = 0; } else { setv(c.back(), x); p = n - 1; } post(); m.a[p] = x; sx_reach("write"); } break;
    case ERASE_IF: { u32 x = fresh(); u32 calls = 0; pre(); usz r = sfl::erase_if(c, [&](const T& e) { calls++; return val(e) <= x; }); post(); Seq o = m; m.n = 0; u32 rem = 0; for (u32 i = 0; i < o.n; i++) if (o.a[i] <= x) rem++; else m.push(o.a[i]); CHECK(r == rem, "erase_if() return value"); CHECK(calls == n, "erase_if() does not apply the predicate exactly once per element"); sx_reach("erase_if"); break; }
    case ERASE_VAL: { u32 x = fresh(); T t(x); pre(); usz r = sfl::erase(c, t); post(); Seq o = m; m.n = 0; u32 rem = 0; for (u32 i = 0; i < o.n; i++) if (o.a[i] == x) rem++; else m.push(o.a[i]); CHECK(r == rem, "erase(c, value) return value"); sx_reach("erase(value)"); break; }
    case COPY_ASG: if constexpr (cp) { Shape s = shape<K>(1, 4, 1); C d; Seq dm; build<K>(d, dm, s); pre(); C& r = (c = d); post(); CHECK(AD %r == &c, "copy assignment return value"); same1(d, dm); m = dm; sx_reach("copy assignment"); } break;
    case MOVE_ASG: { Shape s = shape<K>(1, 4, 1); C d; Seq dm; build<K>(d, dm, s); pre(); C& r = (c = std::move(d)); post(); CHECK(AD %r == &c, "move assignment return value"); valid(d); m = dm; sx_reach("move assignment"); break; }
    case SWAP_M: case SWAP_F: { Shape s = shape<K>(1, 4, 1); C d; Seq dm; build<K>(d, dm, s); pre(); if (op == SWAP_M) c.swap(d); else { using std::swap; swap(c, d); } post(); same1(d, m); m = dm; sx_reach(op == SWAP_M ? "swap(member)" : "swap(free)"); break; }
    case SELF_ASG: if constexpr (cp) { C& a = c; pre(); c = a; post(); sx_reach("self copy assignment"); } break;
    case PUSHF_C: if constexpr (has_op<K, T>(PUSHF_C)) { u32 x = fresh(); const T t(x); pre(); c.push_front(t); post(); CHECK(val(t) == x, "push_front(const&) changed its argument"); m.ins1(0, x); sx_reach("push_front(const&)"); } break;
    case PUSHF_M: if constexpr (has_op<K, T>(PUSHF_M)) { u32 x = fresh(); T t(x); pre(); c.push_front(std::move(t)); post(); m.ins1(0, x); sx_reach("push_front(&&)"); } break;
    case EMPL_F: if constexpr (two_ended<K>) { u32 x = fresh(); pre(); auto& r = c.emplace_front(x); post(); m.ins1(0, x); CHECK(AD %r == AD %c.front(), "emplace_front() return value"); sx_reach("emplace_front"); } break;
    case POP_F: if constexpr (two_ended<K>) { if (n) { pre(); c.pop_front(); post(); m.del(0, 1); sx_reach("pop_front"); } } break;
    case RESERVE_F: if constexpr (two_ended<K>) { u32 k = (u32)pick("k", 0, n + 4); pre(); c.reserve_front(k); post(); if (k > n) CHECK(c.available_front() >= k - n, "reserve_front() did not provide the space"); sx_reach("reserve_front"); } break;
    case RESERVE_B: if constexpr (two_ended<K>) { u32 k = (u32)pick("k", 0, n + 4); pre(); c.reserve_back(k); post(); if (k > n) CHECK(c.available_back() >= k - n, "reserve_back() did not provide the space"); sx_reach("reserve_back"); } break;
    case RESIZE_F: if constexpr (two_ended<K>) { u32 k = (u32)pick("k", 0, n + kmax); pre(); c.resize_front(k); post(); if (k < n) m.del(0, n - k); else m.fill(0, k - n, defval<T>()); sx_reach("resize_front(n)"); } break;
    case RESIZE_FV: if constexpr (has_op<K, T>(RESIZE_FV)) { u32 k = (u32)pick("k", 0, n + kmax), x = fresh(); const T t(x); pre(); c.resize_front(k, t); post(); if (k < n) m.del(0, n - k); else m.fill(0, k - n, x); sx_reach("resize_front(n,value)"); } break;
    case RESIZE_BK: if constexpr (two_ended<K>) { u32 k = (u32)pick("k", 0, n + kmax); pre(); c.resize_back(k); post(); if (k < n) m.n = k; else m.fill(n, k - n, defval<T>()); sx_reach("resize_back(n)"); } break;
    case RESIZE_BV: if constexpr (has_op<K, T>(RESIZE_BV)) { u32 k = (u32)pick("k", 0, n + kmax), x = fresh(); const T t(x); pre(); c.resize_back(k, t); post(); if (k < n) m.n = k; else m.fill(n, k - n, x); sx_reach("resize_back(n,value)"); } break;
    default: break;
  }
}
} // namespace hx
