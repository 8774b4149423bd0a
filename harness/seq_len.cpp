// Lengths over the whole 64-bit range, and growth up to max_size().
#include "seq.h"
using namespace hx;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef SLK
#define SLK 2
#endif
template <class T> u32 trunc(u32 x) { return std::is_same<T, u8>::value ? (u8)x : x; }
template <class C, class T> void build8(C& c, Seq& m, const Shape& s) { build<Kind(KK)>(c, m, s); for (u32 i = 0; i < m.n; i++) m.a[i] = trunc<T>(m.a[i]); }
template <Kind K, class T> void len() {
  typedef seq_t<K, T, Alloc<T, 0>> C;
  {
    C c; Seq m; u32 op = (u32)sx_range("op", 0, 15);
    build8<C, T>(c, m, shape<K>(1, NMAX, SLK));
    const u32 n0 = m.n; const usz cap = c.capacity(); const usz mx = c.max_size();
    typedef typename C::size_type SZ; const usz smax = SZ(~SZ(0)); CHECK(mx == (smax >> 1) / sizeof(T), "max_size()");
    u64 k = sx_u64("len"); if (sx_conc(k <= 16)) k = sx_conc(k); const u32 x = trunc<T>(sx_u32("x")); const T t((u32)x);
    const bool range = op == 4 || op == 6 || op == 10; sx_assume(k <= (range ? smax >> 1 : smax));
    const u32 p = op == 3 || op == 4 ? (u32)pick("p", 0, n0) : 0;
    const CountIt<T> b; CountIt<T> e; e.i = (std::ptrdiff_t)k;
    g.alloc_limit = K == SEGV || K == SEGD ? (sizeof(T) * SEG_N > 160 ? sizeof(T) * SEG_N : 160) : 12 * sizeof(T);
    if (K == SEGV || K == SEGD) g.max_blk = g.nblk + 6;
    const usz held = n0; // elements held before
    int how = 0; bool total_over; u64 total = k; bool adds = false;
    if (op == 3 || op == 4) adds = true;
    total_over = adds ? (k > mx || k + held > mx) : k > mx;
    auto ctor = [&](auto f) { f(); };
    const char* w = "";
    try {
      switch (op) {
        case 0: if constexpr (has_op<K, T>(RESERVE)) { w = "reserve"; c.reserve(k); CHECK(c.capacity() >= k, "reserve() did not provide the capacity"); break; } else return;
        case 1: w = "resize(n)"; c.resize(k); break;
        case 2: w = "resize(n,value)"; c.resize(k, t); break;
        case 3: w = "insert(pos,n,value)"; c.insert(c.begin() + p, SZ(k), t); break;
        case 4: w = "insert(pos,range)"; c.insert(c.begin() + p, b, e); break;
        case 5: w = "assign(n,value)"; c.assign(SZ(k), t); break;
        case 6: w = "assign(range)"; c.assign(b, e); break;
        case 7: w = "ctor(n)"; ctor([&] { C d((SZ)k); CHECK(d.size() == k, "size after construction"); }); break;
        case 8: w = "ctor(n,value)"; ctor([&] { C d(SZ(k), t); CHECK(d.size() == k, "size after construction"); }); break;
        case 10: w = "ctor(range)"; ctor([&] { C d(b, e); CHECK(d.size() == k, "size after construction"); }); break;
        case 11: if constexpr (two_ended<K>) { w = "reserve_front"; c.reserve_front(k); if (k > n0) CHECK(c.available_front() >= k - n0, "reserve_front() did not provide the space"); break; } else return;
        case 12: if constexpr (two_ended<K>) { w = "reserve_back"; c.reserve_back(k); if (k > n0) CHECK(c.available_back() >= k - n0, "reserve_back() did not provide the space"); break; } else return;
        case 13: if constexpr (two_ended<K>) { w = "resize_front"; c.resize_front(k, t); break; } else return;
        case 14: if constexpr (two_ended<K>) { w = "resize_back"; c.resize_back(k, t); break; } else return;
        case 15: if constexpr (two_ended<K>) { w = "resize_front(n)"; c.resize_front(k); break; } else return;
        default: return;
      }
    } catch (const std::length_error&) { how = 1; } catch (const std::bad_alloc&) { how = 2; }
    // two-ended containers count their free slots at the other end
    if (how == 1) CHECK(total_over || (two_ended<K> && (op >= 11 || adds) && (k > mx - cap || k + cap > mx)), "std::length_error although the length fits");
    // reporting an impossible length as bad_alloc is accepted only from the allocator itself
    if (total_over) { CHECK(how != 0, "impossible length accepted"); CHECK(how == 1, "impossible length not reported as std::length_error"); sx_reach("length_error"); }
    if (how == 2) { CHECK(k > 3, "bad_alloc for a small length"); sx_reach("bad_alloc"); }
    valid(c);
    if (how) {
      if (op != 5 && op != 6) { CHECK(c.size() == n0 && c.capacity() == cap, "failed length changed the container"); for (u32 i = 0; i < n0; i++) CHECK(val(c[i]) == m.a[i], "failed length changed the container"); }
    } else {
      const u32 kk = (u32)sx_conc(k); sx_reach(w);
      switch (op) {
        case 1: if (kk < n0) m.n = kk; else grown<K>(c, m, kk, trunc<T>(is_tracked<T>::value ? DEFV : 0)); break;
        case 2: if (kk < n0) m.n = kk; else grown<K>(c, m, kk, x); break;
        case 3: m.fill(p, kk, x); break;
        case 4: { u32 y[MCAP]; for (u32 i = 0; i < kk; i++) y[i] = i + 1; m.ins(p, kk, y); break; }
        case 5: m.n = 0; m.fill(0, kk, x); break;
        case 6: m.n = 0; for (u32 i = 0; i < kk; i++) m.push(i + 1); break;
        case 13: case 15: { u32 f = op == 13 ? x : trunc<T>(is_tracked<T>::value ? DEFV : 0); if (kk < n0) m.del(0, n0 - kk); else m.fill(0, kk - n0, f); break; }
        case 14: if (kk < n0) m.n = kk; else m.fill(n0, kk - n0, x); break;
      }
      same1(c, m);
    }
    obs_seq(c);
  }
  all_returned();
}
#if KK != 4
extern "C" void len_u8() { len<Kind(KK), u8>(); }
extern "C" void len_u32() { len<Kind(KK), u32>(); }
extern "C" void len_EN() { len<Kind(KK), EN>(); }
extern "C" void len_Big() { len<Kind(KK), Big>(); }
#endif

// Growth towards a small max_size(): everything up to it fits, nothing beyond it does.
template <Kind K, class T> void maxs() {
  typedef seq_t<K, T, Alloc<T, MAXN>> C;
  {
    C c; Seq m; u32 op = (u32)sx_range("op", 0, 8);
    build<K>(c, m, shape<K>(1, 4, 2));
    const u32 n = m.n;
    g.maxn = c.capacity() + pick("room", 0, 4);
    if (K == SMALL && SMALL_N && c.capacity() <= SMALL_N && pick("tiny", 0, 1)) g.maxn = pick("maxn", 0, SMALL_N - 1); // elements stored inside need no allocator
    const usz mx = K == SMALL && g.maxn < SMALL_N ? SMALL_N : g.maxn;
    CHECK(c.max_size() == mx, "max_size() ignores the allocator");
    u32 k = op < 3 ? 1 : (u32)pick("k", 0, 6); bool thrown = false; const u32 x = sx_u32("x"); const T t(x); const usz total = op == 5 || op == 8 ? k : n + k;
    Src s; s.n = k; for (u32 i = 0; i < k; i++) s.x[i] = i + 1; Buf<T> b(s); u32 ps = 0; u32 p = (u32)pick("p", 0, n);
    const usz cap = c.capacity();
    if (op == 1 || op == 0 || op == 4 || op == 8) p = n;
    try {
      switch (op) {
        case 0: c.push_back(t); break; case 1: c.emplace_back(x); break; case 2: c.insert(c.begin() + p, t); break;
        case 3: c.insert(c.begin() + p, usz(k), t); break; case 4: c.resize(n + k, t); break; case 5: c.assign(usz(k), t); break;
        case 6: c.insert(c.begin() + p, b.b(), b.e()); break; case 7: c.insert(c.begin() + p, InIt<T>(b.b(), &ps), InIt<T>(b.e(), &ps)); break;
        case 8: c.assign(b.b(), b.e()); break;
      }
    } catch (const std::length_error&) { thrown = true; }
    const u32 at = p;
    // segmented containers grow by whole segments and may pass max_size() by less than two of them (maxs_round: known finding)
    const usz over = contiguous<K> ? 0 : 2 * SEG_N - 1;
    if (total > mx + over) { CHECK(thrown, "more than max_size() elements accepted"); sx_reach("over"); }
    else if (total > mx) {}
    else if (!two_ended<K> || (op != 7 && cap + k <= mx && (K == SEGD || cap + cap / 2 <= mx))) CHECK(!thrown, "std::length_error although the elements fit into max_size()");
    CHECK(c.size() <= mx + over && c.capacity() <= mx + over, "container larger than max_size()");
    valid(c);
    if (!thrown) { if (op <= 3) m.fill(at, k, x); else if (op == 4) grown<K>(c, m, n + k, x); else if (op == 5) { m.n = 0; m.fill(0, k, x); } else if (op == 8) m.set(k, s.x); else m.ins(at, k, s.x); same1(c, m); sx_reach("fits"); }
    else if (op != 7) same1(c, m);
    g.maxn = 1000; obs_seq(c);
  }
  all_returned();
}
template <Kind K, class T> void maxs_round() {
  {
    seq_t<K, T, Alloc<T, MAXN>> c; Seq m; build<K>(c, m, shape<K>(1, 2, 2));
    g.maxn = c.capacity() + pick("room", 0, 2); const bool front = two_ended<K> && pick("front", 0, 1); bool thrown = false;
    try { for (u32 i = 0; i < 12 && c.size() <= g.maxn; i++) { if constexpr (two_ended<K>) { if (front) { c.emplace_front(i); continue; } } c.emplace_back(i); } } catch (const std::length_error&) { thrown = true; }
    CHECK(c.size() <= g.maxn, "a segmented container passed max_size(), which is no whole number of segments"); if (thrown) sx_reach("thrown");
    g.maxn = 1000;
  }
  all_returned();
}
#if KK == 5 || KK == 6
extern "C" void maxs_round() { maxs_round<Kind(KK), EN>(); }
#endif
#if KK != 4
extern "C" void maxs_EN() { maxs<Kind(KK), EN>(); }
extern "C" void maxs_u32() { maxs<Kind(KK), u32>(); }
#endif

// at(): every 64-bit position
template <Kind K, class T> void at() {
  {
    seq_t<K, T, Alloc<T, 0>> c; Seq m; build<K>(c, m, shape<K>(2, 4, 2)); const auto& k = c;
    const u64 p = sx_u64("pos"); bool out = false; const T* r = nullptr; const bool cn = sx_range("const", 0, 1);
    try { r = cn ? AD %k.at(p) : AD %c.at(p); } catch (const std::out_of_range&) { out = true; }
    CHECK(out == (p >= m.n), "at() throws std::out_of_range iff the position is out of range");
    if (!out) { const u32 i = (u32)sx_conc(p); CHECK(r == AD %c[i] && val(*r) == m.a[i], "at() refers to another element"); sx_reach(cn ? "at const" : "at"); } else sx_reach("out_of_range");
    same1(c, m); obs_seq(c);
  }
  all_returned();
}
extern "C" void at_EN() { at<Kind(KK), EN>(); }
extern "C" void at_u32() { at<Kind(KK), u32>(); }
