// Violated preconditions: in a debug build (NDEBUG not defined) the call is stopped by an
// assertion before it does any damage.
#ifdef KK
#include "seq.h"
using namespace hx;
#ifndef NMAX
#define NMAX 4
#endif
#ifndef SLK
#define SLK 2
#endif
#define BAD(what, ...) do { sx_reach(what); sx_expect_abort(1); __VA_ARGS__; sx_fail("a violated precondition is not stopped by an assertion: " what); } while (0)
#define CASE(cond, what, ...) if (!(cond)) return; BAD(what, __VA_ARGS__); break
template <Kind K, class T, int AF = 0> void pre() {
  typedef seq_t<K, T, Alloc<T, AF>> C;
  {
    C c; Seq m; const u32 op = (u32)sx_range("op", 0, 41);
    build<K>(c, m, shape<K>(SLK, NMAX, SLK));
    const C& k = c; const u32 n = m.n; const T t(7); const bool st = K == STATIC;
    u32 fr = 0, bk = 0;   // unused storage before the first and behind the last element
    if constexpr (K == DEVECTOR || K == SEGD) { fr = (u32)c.available_front(); bk = (u32)c.available_back(); } else if (K != COMPACT) bk = (u32)(c.capacity() - n);
    alignas(T) unsigned char raw[sizeof(T) * (STATIC_N + 3)]; T* b = reinterpret_cast<T*>(raw); u32 bn = 0;
    struct R { T* b; u32& n; ~R() { while (n) b[--n].~T(); } } rr{b, bn};
    if (op >= 26 && op < 40) for (; bn < STATIC_N + 3; bn++) ::new ((void*)(b + bn)) T(bn);
    // a position outside [begin, end]
    auto out = [&](typename C::const_iterator& it) { const bool front = pick("front", 0, 1); if (front ? fr == 0 : bk == 0) return false; it = front ? k.begin() - 1 : k.end() + 1; return true; };
    typename C::const_iterator p = k.begin(); u32 pos = 0;
    switch (op) {
      case 0: { u64 i = sx_u64("i"); sx_assume(i >= n); CASE(true, "operator[]", (void)c[i]); }
      case 1: { u64 i = sx_u64("i"); sx_assume(i >= n); CASE(true, "operator[] const", (void)k[i]); }
      case 2: { u64 i = sx_u64("i"); sx_assume(i > n); CASE(true, "nth", (void)c.nth(i)); }
      case 3: { u64 i = sx_u64("i"); sx_assume(i > n); CASE(true, "nth const", (void)k.nth(i)); }
      case 4: CASE(!n, "front", (void)c.front());
      case 5: CASE(!n, "front const", (void)k.front());
      case 6: CASE(!n, "back", (void)c.back());
      case 7: CASE(!n, "back const", (void)k.back());
      case 8: CASE(!n, "pop_back", c.pop_back());
      case 9: if constexpr (two_ended<K>) { CASE(!n, "pop_front", c.pop_front()); } else return;
      case 10: CASE(out(p), "index_of", (void)k.index_of(p));
      case 11: CASE(out(p), "emplace", c.emplace(p, 5u));
      case 12: CASE(out(p), "insert(pos,const&)", c.insert(p, t));
      case 13: CASE(out(p), "insert(pos,&&)", c.insert(p, T(3)));
      case 14: CASE(out(p), "insert(pos,n,value)", c.insert(p, usz(1), t));
      case 15: CASE(out(p), "insert(pos,range)", c.insert(p, AD %t, AD %t + 1));
      case 16: CASE(out(p), "insert(pos,input range)", c.insert(p, InIt<T>(AD %t, &pos), InIt<T>(AD %t + 1, &pos)));
      case 17: CASE(out(p), "insert(pos,ilist)", c.insert(p, std::initializer_list<T>{t}));
      case 18: CASE(true, "erase(end())", c.erase(k.end()));
      case 19: CASE(out(p), "erase(pos)", c.erase(p));
      case 20: { u32 i = (u32)pick("p", 0, n), j = (u32)pick("q", 0, n); CASE(i > j, "erase(first > last)", c.erase(k.begin() + i, k.begin() + j)); }
      case 21: { u32 i = (u32)pick("p", 0, n); CASE(bk > 0, "erase(first,last > end())", c.erase(k.begin() + i, k.end() + 1)); }
      case 22: { u32 i = (u32)pick("p", 0, n); CASE(fr > 0, "erase(first < begin(),last)", c.erase(k.begin() - 1, k.begin() + i)); }
      case 40: case 41: if constexpr (has_alloc<K>) {
        C d{Alloc<T, AF>(9)}; Seq dm; build<K>(d, dm, shape<K>(0, 2, 0));
        if (op == 40) { CASE(true, "swap with unequal allocators", c.swap(d)); } else { using std::swap; CASE(true, "free swap with unequal allocators", swap(c, d)); }
      } else return;
      default: break;
    }
    if constexpr (K == STATIC) {
      const u64 big = sx_u64("len"); const u64 N = STATIC_N; const u32 more = (u32)pick("more", 1, 2), left = STATIC_N - n;
      switch (op) {
        case 26: CASE(n == N, "push_back(const&) when full", c.push_back(t));
        case 27: CASE(n == N, "push_back(&&) when full", c.push_back(T(3)));
        case 28: CASE(n == N, "emplace_back when full", c.emplace_back(3u));
        case 29: { u32 i = (u32)pick("p", 0, n); CASE(n == N, "emplace when full", c.emplace(k.begin() + i, 3u)); }
        case 30: { u32 i = (u32)pick("p", 0, n), w = (u32)pick("how", 0, 1); if (w) { CASE(n == N, "insert(const&) when full", c.insert(k.begin() + i, t)); } else { CASE(n == N, "insert(&&) when full", c.insert(k.begin() + i, T(3))); } }
        case 31: { u32 i = (u32)pick("p", 0, n); sx_assume(big > left); CASE(true, "insert(n) above available()", c.insert(k.begin() + i, usz(big), t)); }
        case 32: { u32 i = (u32)pick("p", 0, n); u32 w = (u32)pick("how", 0, 2); const T* e = b + left + more;
          if (w == 0) { CASE(true, "insert(range) above available()", c.insert(k.begin() + i, (const T*)b, e)); } else if (w == 1) { CASE(true, "insert(input range) above available()", c.insert(k.begin() + i, InIt<T>(b, &pos), InIt<T>(e, &pos))); }
          else { CASE(left == 0, "insert(ilist) above available()", c.insert(k.begin() + i, std::initializer_list<T>{t, t})); } }
        case 33: sx_assume(big > N); CASE(!n, "ctor(n) above capacity()", C d(big));
        case 34: sx_assume(big > N); CASE(!n, "ctor(n,value) above capacity()", C d(usz(big), t));
        case 35: { u32 w = (u32)pick("how", 0, 1); if (n) return; if (w) { BAD("ctor(range) above capacity()", C d((const T*)b, (const T*)b + N + more)); } else BAD("ctor(input range) above capacity()", C d(InIt<T>(b, &pos), InIt<T>(b + N + more, &pos))); break; }
        case 36: sx_assume(big > N); CASE(true, "assign(n) above capacity()", c.assign(usz(big), t));
        case 37: { u32 w = (u32)pick("how", 0, 1); if (w) { BAD("assign(range) above capacity()", c.assign((const T*)b, (const T*)b + N + more)); } else BAD("assign(input range) above capacity()", c.assign(InIt<T>(b, &pos), InIt<T>(b + N + more, &pos))); break; }
        case 38: { u32 w = (u32)pick("how", 0, 1); sx_assume(big > N); if (w) { BAD("resize(n) above capacity()", c.resize(big)); } else BAD("resize(n,value) above capacity()", c.resize(big, t)); break; }
        case 39: { u32 w = (u32)pick("how", 0, 3); static_assert(STATIC_N <= 5, ""); const std::initializer_list<T> il{t, t, t, t, t, t};
          if (w == 0) BAD("ctor(ilist) above capacity()", C d(il)); else if (w == 1) BAD("assign(ilist) above capacity()", c.assign(il)); else if (w == 2) BAD("operator=(ilist) above capacity()", c = il); else { sx_assume(big > N); BAD("ctor(default_init) above capacity()", C d(big, sfl::default_init_t())); } break; }
        default: break;
      }
    }
  }
}
extern "C" void pre_EN() { pre<Kind(KK), EN>(); }
extern "C" void pre_u32() { pre<Kind(KK), u32>(); }
#else
#include "flat.h"
using namespace hx;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef SLK
#define SLK 1
#endif
#define BAD(what, ...) do { sx_reach(what); sx_expect_abort(1); __VA_ARGS__; sx_fail("a violated precondition is not stopped by an assertion: " what); } while (0)
template <class F> void pre() {
  typedef typename F::type C; typedef typename F::value V; typedef typename F::key K; typedef typename F::mapped M;
  constexpr bool cp = std::is_copy_constructible<V>::value;
  {
    Fm m; m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55; const u32 op = (u32)sx_range("op", 0, 44);
    C c{typename F::cmp(m.dir, m.id)}; fbuild<F>(c, m, fshape<F>(F::stat ? STATIC_N : NMAX, SLK)); const C& k = c; const u32 n = m.n;
    typedef typename C::const_iterator CI; const bool full = F::stat && n == STATIC_N, gap = c.capacity() > n;
    const CI bad = gap ? k.end() + 1 : k.end();
    Ent e = fresh_ent(); if (!F::multi) sx_assume(m.find(e.k) < 0); const K kc(e.k, e.t); K km(e.k, e.t); Probe pr{e.k, e.t}; V v(mk<F>(e)); const V vc(mk<F>(e)); M mv(e.m); (void)mv;
    const CI any = k.begin() + (u32)pick("h", 0, n);
    // full: every insertion of a new key; otherwise: every hinted insertion with a hint behind end()
    const bool hinted = !full;
    if (op < 4) switch (op) {
      case 0: { u64 i = sx_u64("i"); sx_assume(i > n); BAD("nth", (void)c.nth(i)); break; }
      case 1: { u64 i = sx_u64("i"); sx_assume(i > n); BAD("nth const", (void)k.nth(i)); break; }
      case 2: if (!gap) return; BAD("index_of", (void)k.index_of(bad)); break;
      case 3: BAD("erase(end())", c.erase(k.end())); break;
    }
    else if (op == 4) { if (!n) return; u32 i = (u32)pick("p", 0, n), j = (u32)pick("q", 0, n); if (i <= j) return; BAD("erase(first > last)", c.erase(k.begin() + i, k.begin() + j)); }
    else if (op == 5) { if (!gap) return; BAD("erase(first,last > end())", c.erase(any, bad)); }
    else if (op == 6) { if (!gap) return; BAD("erase(pos > end())", c.erase(bad)); }
    else if (op == 7) { BAD("erase(iterator end())", c.erase(c.end())); }
    else if (op == 8 || op == 9) { if constexpr (!F::stat) { C d{typename F::cmp(0, 1), typename C::allocator_type(9)}; Fm dm; fbuild<F>(d, dm, fshape<F>(SMALL_N + 1, 0)); using std::swap; if (op == 8) BAD("swap with unequal allocators", c.swap(d)); else BAD("free swap with unequal allocators", swap(c, d)); } else return; }
    else if (op >= 10 && op < 24) {    // hints behind end()
      if (!hinted || !gap) return;
      switch (op) {
        case 10: if constexpr (F::map) BAD("emplace_hint: hint", c.emplace_hint(bad, std::piecewise_construct, std::forward_as_tuple(e.k, e.t), std::forward_as_tuple(e.m))); else BAD("emplace_hint: hint", c.emplace_hint(bad, e.k, e.t)); break;
        case 11: if constexpr (cp) BAD("insert(hint,const&): hint", c.insert(bad, vc)); break;
        case 12: BAD("insert(hint,&&): hint", c.insert(bad, std::move(v))); break;
        case 13: if constexpr (F::map) { std::pair<Probe, u32> p(pr, e.m); BAD("insert(hint,P&&): hint", c.insert(bad, p)); } else if constexpr (requires { c.insert(bad, pr); c.insert(pr); }) BAD("insert(hint,K&&): hint", c.insert(bad, pr)); break;
        case 14: if constexpr (requires { c.insert_or_assign(kc, std::move(mv)); }) BAD("insert_or_assign(hint,const&): hint", c.insert_or_assign(bad, kc, std::move(mv))); break;
        case 15: if constexpr (requires { c.insert_or_assign(kc, std::move(mv)); }) BAD("insert_or_assign(hint,&&): hint", c.insert_or_assign(bad, std::move(km), std::move(mv))); break;
        case 16: if constexpr (requires { c.insert_or_assign(pr, std::move(mv)); }) BAD("insert_or_assign(hint,K&&): hint", c.insert_or_assign(bad, pr, std::move(mv))); break;
        case 17: if constexpr (requires { c.try_emplace(kc, std::move(mv)); }) BAD("try_emplace(hint,const&): hint", c.try_emplace(bad, kc, std::move(mv))); break;
        case 18: if constexpr (requires { c.try_emplace(kc, std::move(mv)); }) BAD("try_emplace(hint,&&): hint", c.try_emplace(bad, std::move(km), std::move(mv))); break;
        case 19: if constexpr (requires { c.try_emplace(pr, std::move(mv)); }) BAD("try_emplace(hint,K&&): hint", c.try_emplace(bad, pr, std::move(mv))); break;
        default: return;
      }
    } else if (op >= 24) {             // full static container, new key
      if (!full) return;
      switch (op) {
        case 24: if constexpr (F::map) BAD("emplace when full", c.emplace(std::piecewise_construct, std::forward_as_tuple(e.k, e.t), std::forward_as_tuple(e.m))); else BAD("emplace when full", c.emplace(e.k, e.t)); break;
        case 25: if constexpr (F::map) BAD("emplace_hint when full", c.emplace_hint(any, std::piecewise_construct, std::forward_as_tuple(e.k, e.t), std::forward_as_tuple(e.m))); else BAD("emplace_hint when full", c.emplace_hint(any, e.k, e.t)); break;
        case 26: if constexpr (cp) BAD("insert(const&) when full", c.insert(vc)); break;
        case 27: BAD("insert(&&) when full", c.insert(std::move(v))); break;
        case 28: if constexpr (cp) BAD("insert(hint,const&) when full", c.insert(any, vc)); break;
        case 29: BAD("insert(hint,&&) when full", c.insert(any, std::move(v))); break;
        case 30: if constexpr (F::map) { std::pair<Probe, u32> p(pr, e.m); if (pick("how", 0, 1)) BAD("insert(P&&) when full", c.insert(p)); else BAD("insert(hint,P&&) when full", c.insert(any, p)); } else if constexpr (requires { c.insert(any, pr); c.insert(pr); }) { if (pick("how", 0, 1)) BAD("insert(K&&) when full", c.insert(pr)); else BAD("insert(hint,K&&) when full", c.insert(any, pr)); } break;
        case 31: if constexpr (requires { c.insert_or_assign(kc, std::move(mv)); }) { if (pick("how", 0, 1)) BAD("insert_or_assign(const&) when full", c.insert_or_assign(kc, std::move(mv))); else BAD("insert_or_assign(hint,const&) when full", c.insert_or_assign(any, kc, std::move(mv))); } break;
        case 32: if constexpr (requires { c.insert_or_assign(kc, std::move(mv)); }) { if (pick("how", 0, 1)) BAD("insert_or_assign(&&) when full", c.insert_or_assign(std::move(km), std::move(mv))); else BAD("insert_or_assign(hint,&&) when full", c.insert_or_assign(any, std::move(km), std::move(mv))); } break;
        case 33: if constexpr (requires { c.insert_or_assign(pr, std::move(mv)); }) { if (pick("how", 0, 1)) BAD("insert_or_assign(K&&) when full", c.insert_or_assign(pr, std::move(mv))); else BAD("insert_or_assign(hint,K&&) when full", c.insert_or_assign(any, pr, std::move(mv))); } break;
        case 34: if constexpr (requires { c.try_emplace(kc, std::move(mv)); }) { if (pick("how", 0, 1)) BAD("try_emplace(const&) when full", c.try_emplace(kc, std::move(mv))); else BAD("try_emplace(hint,const&) when full", c.try_emplace(any, kc, std::move(mv))); } break;
        case 35: if constexpr (requires { c.try_emplace(kc, std::move(mv)); }) { if (pick("how", 0, 1)) BAD("try_emplace(&&) when full", c.try_emplace(std::move(km), std::move(mv))); else BAD("try_emplace(hint,&&) when full", c.try_emplace(any, std::move(km), std::move(mv))); } break;
        case 36: if constexpr (requires { c.try_emplace(pr, std::move(mv)); }) { if (pick("how", 0, 1)) BAD("try_emplace(K&&) when full", c.try_emplace(pr, std::move(mv))); else BAD("try_emplace(hint,K&&) when full", c.try_emplace(any, pr, std::move(mv))); } break;
        case 37: if constexpr (requires { c[kc]; }) { const u32 w = (u32)pick("how", 0, 2); if (w == 0) BAD("operator[](const&) when full", (void)c[kc]); else if (w == 1) BAD("operator[](&&) when full", (void)c[std::move(km)]); else if constexpr (requires { c[pr]; }) BAD("operator[](K&&) when full", (void)c[pr]); } break;
        case 38: case 39: case 40: case 41: if constexpr (cp && F::stat) { // too many new keys at once: N + 1 distinct ones, or one too many for the space left
          alignas(V) unsigned char raw[sizeof(V) * (STATIC_N + 1)]; V* b = reinterpret_cast<V*>(raw); u32 bn = 0, pos = 0; struct R { V* b; u32& n; ~R() { while (n) b[--n].~V(); } } rr{b, bn};
          for (u32 i = 0; i < STATIC_N + 1; i++, bn++) { if (i < n) ::new ((void*)(b + i)) V(mk<F>(m.e[i])); else ::new ((void*)(b + i)) V(mk<F>(e)); }
          const u32 w = (u32)pick("how", 0, 1); V* q = b + STATIC_N; V* z = q + 1;
          if (op == 38) { if (w) BAD("insert(range) when full", c.insert((const V*)q, (const V*)z)); else BAD("insert(input range) when full", c.insert(InIt<V>(q, &pos), InIt<V>(z, &pos))); }
          else if (op == 39) { if (w) BAD("ctor(range) above capacity()", C d((const V*)b, (const V*)z, typename F::cmp(m.dir, 1))); else BAD("ctor(input range) above capacity()", C d(InIt<V>(b, &pos), InIt<V>(z, &pos), typename F::cmp(m.dir, 1))); }
          else if (op == 40) { if (w) BAD("insert(ilist) when full", c.insert(std::initializer_list<V>{vc})); else { static_assert(STATIC_N == 3, ""); const std::initializer_list<V> il{b[0], b[1], b[2], b[3]}; BAD("operator=(ilist) above capacity()", c = il); } }
          else { const std::initializer_list<V> il{b[0], b[1], b[2], b[3]}; BAD("ctor(ilist) above capacity()", C d(il, typename F::cmp(m.dir, 1))); }
        } break;
        default: return;
      }
    }
  }
}
template <class K, class V> using FM = Fam<FK, K, V, CM_TRANSP, Alloc<K, 0>>;
extern "C" void pre_EN() { pre<FM<EN, EN>>(); }
extern "C" void pre_tv() { pre<FM<Triv, u32>>(); }
#endif
