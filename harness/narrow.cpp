// Allocators whose size_type is a single byte: everything up to max_size() works, nothing beyond it is accepted.
#define MAXBLK 80
#ifdef KK
#include "seq.h"
#else
#include "flat.h"
#include <algorithm>
#endif
using namespace hx;
#ifndef ROOM
#define ROOM 3
#endif
#ifndef KMAX
#define KMAX 5
#endif
#ifdef KK
template <Kind K, class T> void limit() {
  typedef seq_t<K, T, Alloc<T, NARROW>> C; typedef typename C::size_type SZ;
  {
    C c; const usz mx = c.max_size(); CHECK(mx == usz(SZ(~SZ(0)) >> 1) / sizeof(T), "max_size()");
    const u32 op = (u32)sx_range("op", 0, 11), room = (u32)pick("room", 0, ROOM < mx ? ROOM : mx), n = (u32)mx - room, how = (u32)pick("how", 0, 2);
    const u32 v = sx_u32("v") & 127, x = sx_u32("x") & 127; const T tv((u32)v), t((u32)x);
    // three ways to get there: exactly, by growing, and with a little spare storage
    if (n < 2) return;
    if (how == 0) c.assign(SZ(n), tv);
    else if (how == 1) { try { for (u32 i = 0; i < n; i++) c.push_back(tv); } catch (const std::length_error&) { CHECK(two_ended<K>, "std::length_error although the elements fit into max_size()"); return; } }
    else { try { c.assign(SZ(n - 2), tv); c.push_back(tv); c.insert(c.begin(), tv); } catch (const std::length_error&) { CHECK(two_ended<K>, "std::length_error although the elements fit into max_size()"); return; } }
    CHECK(c.size() == n && c.capacity() >= n, "size near max_size()");
    const u32 w = (u32)pick("p", 0, 2), p = w == 0 ? 0 : w == 1 ? n / 2 : n, k = op < 3 ? 1 : (u32)pick("k", 0, KMAX);
    Src s; s.n = k; for (u32 i = 0; i < k; i++) s.x[i] = i + 1; Buf<T> b(s); u32 ps = 0; bool thrown = false, range = false; u32 at = p, total = n + k, old = n; const u32 cap = c.capacity();
    try {
      switch (op) {
        case 0: c.push_back(t); at = n; break; case 1: c.emplace_back((u32)x); at = n; break; case 2: c.insert(c.begin() + p, t); break;
        case 3: c.insert(c.begin() + p, SZ(k), t); break; case 4: c.resize(SZ(n + k), t); at = n; break;
        case 5: c.assign(SZ(n + k), t); at = 0; old = 0; break;
        case 6: c.insert(c.begin() + p, b.b(), b.e()); range = true; break;
        case 7: c.insert(c.begin() + p, InIt<T>(b.b(), &ps), InIt<T>(b.e(), &ps)); range = true; break;
        case 8: if constexpr (has_op<K, T>(RESERVE)) { c.reserve(SZ(n + k)); CHECK(c.capacity() >= n + k, "reserve() did not provide the capacity"); } else return; break;
        case 9: if constexpr (has_op<K, T>(PUSHF_C)) { if (k > 1) return; for (u32 i = 0; i < k; i++) c.push_front(t); at = 0; } else return; break;
        case 10: { C d(SZ(n + k), t); CHECK(d.size() == n + k, "constructor"); return; }
        case 11: if constexpr (two_ended<K>) { c.resize_front(SZ(n + k), t); at = 0; } else return; break;
      }
    } catch (const std::length_error&) { thrown = true; }
    // segmented containers may pass max_size() by less than two segments (known finding of P16)
    const usz over = contiguous<K> ? 0 : 2 * SEG_N - 1;
    if (total > mx + over) { CHECK(thrown, "more than max_size() elements accepted"); sx_reach("over"); }
    else if (total > mx) return;
    // containers with storage at both ends, or of whole segments, may be stopped by the storage they already have
    else if (contiguous<K> && !two_ended<K>) CHECK(!thrown, "std::length_error although the elements fit into max_size()");
    else if (cap + k <= mx && op != 7 && !two_ended<K>) CHECK(!thrown, "std::length_error although the elements fit into max_size()");
    if (!thrown) sx_reach("fits");
    if (op == 8) { total = n; old = n; at = 0; }
    if (thrown && op == 7) { valid(c); }
    else if (thrown) { CHECK(c.size() == n && c.capacity() == cap, "refused operation changed the container"); for (u32 i = 0; i < n; i++) CHECK(val(c[i]) == v, "refused operation changed the container"); }
    else {
      const u32 add = total - old; CHECK(c.size() == total && (usz)(c.end() - c.begin()) == total, "size()");
      for (u32 i = 0; i < total; i++) CHECK(val(c[i]) == (op == 8 || i < at || i >= at + add ? v : range ? i - at + 1 : x), "element");
    }
    obs_seq(c);
  }
  all_returned();
}
extern "C" void limit_u8() { limit<Kind(KK), u8>(); }
extern "C" void limit_u32() { limit<Kind(KK), u32>(); }
extern "C" void limit_EN() { limit<Kind(KK), EN>(); }
extern "C" void limit_Big() { limit<Kind(KK), Big>(); }
#else
template <class F> void limit() {
  typedef typename F::type C; typedef typename F::value V; typedef typename F::key K; typedef typename C::size_type SZ;
  auto mkv = [](u32 k) { if constexpr (F::map) return V(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(k ^ 5)); else return V(k); };
  {
    C c{typename F::cmp(0, 55)}; const usz mx = c.max_size(), lim = usz(SZ(~SZ(0)) >> 1) / sizeof(V); CHECK(mx == (lim < SMALL_N ? SMALL_N : lim), "max_size()");
    const u32 op = (u32)sx_range("op", 0, 6), room = (u32)pick("room", 0, ROOM < mx ? ROOM : mx), n = (u32)mx - room, k = (u32)pick("k", 0, 3), how = (u32)pick("how", 0, 1);
    if (how) c.reserve(SZ(n));
    for (u32 i = 0; i < n; i++) c.insert(mkv(2 * i));
    CHECK(c.size() == n, "size near max_size()");
    const u32 w = (u32)pick("p", 0, 2), base = w == 0 ? 0 : w == 1 ? n / 2 : n; bool thrown = false; const usz cap = c.capacity();
    u32 total = n + k;
    try {
      switch (op) {
        case 0: if (k != 1) return; c.insert(mkv(2 * base + 1)); break;
        case 1: if (k != 1) return; if constexpr (F::map) c.emplace(2 * base + 1, (2 * base + 1) ^ 5); else c.emplace(2 * base + 1); break;
        case 2: if (k != 1) return; c.insert(c.begin() + base, mkv(2 * base + 1)); break;
        case 3: { V a[3] = {mkv(2 * base + 1), mkv(2 * base + 3), mkv(2 * base + 5)}; c.insert(a, a + k); break; }
        case 4: c.reserve(SZ(n + k)); CHECK(c.capacity() >= n + k, "reserve() did not provide the capacity"); break;
        case 5: if (k != 1) return; if constexpr (F::map && !F::multi) c.try_emplace(K(2 * base + 1), (2 * base + 1) ^ 5); else return; break;
        case 6: { if (k) return; C d(c); CHECK(d.size() == n && d == c, "copy"); C e{typename F::cmp(0, 55)}; e.insert(c.begin(), c.end()); CHECK(e == c, "range insertion"); break; }
      }
    } catch (const std::length_error&) { thrown = true; }
    CHECK(thrown == (total > mx), thrown ? "std::length_error although the elements fit into max_size()" : "more than max_size() elements accepted"); sx_reach(thrown ? "over" : "fits");
    CHECK(c.size() <= mx && c.capacity() <= mx, "container larger than max_size()");
    const u32 added = op == 4 ? 0 : (u32)(c.size() - n);
    if (!thrown) CHECK(c.size() == (op == 4 ? n : total), "size()"); else if (op != 3) CHECK(added == 0 && c.capacity() == cap, "refused operation changed the container");
    CHECK((usz)(c.end() - c.begin()) == c.size(), "size() and iterators");
    for (u32 i = 0; i < n; i++) { auto it = c.find(K(2 * i)); CHECK(it != c.end(), "element lost"); if constexpr (F::map) CHECK(val(it->second) == ((2 * i) ^ 5), "mapped value"); }
    for (u32 j = 0; j < added; j++) CHECK(c.count(K(2 * base + 1 + 2 * j)) == 1, "element not inserted");
    sx_obs(c.size());
  }
  all_returned();
}
extern "C" void limit_u32() { limit<Fam<FK, u32, u32, 0, Alloc<u32, NARROW>>>(); }
extern "C" void limit_EN() { limit<Fam<FK, EN, EN, 0, Alloc<u32, NARROW>>>(); }
#endif
