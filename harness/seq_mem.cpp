// Storage management of sequence containers: strong guarantee of reserve/shrink (strong_*),
// capacity promises and reference stability (cap_*, ref_*), copy/move/swap (cms_*).
#define COUNT_NEW
#include "seq.h"
using namespace hx;
#ifndef NMAX
#define NMAX 3
#endif
#ifndef SLK
#define SLK 2
#endif
#ifndef KMAX
#define KMAX 2
#endif
// addresses and contents before an operation
template <class C> struct Snap {
  typedef typename C::value_type T;
  usz n, cap; const T* p[MCAP]; u32 v[MCAP];
  Snap(C& c) : n(c.size()), cap(c.capacity()) { u32 i = 0; for (auto& x : c) { p[i] = AD %x; v[i] = val(x); i++; } }
  void same_refs(C& c, usz from, usz cnt, usz at, const char* w) { for (usz i = 0; i < cnt; i++) { CHECK(AD %c[at + i] == p[from + i], w); CHECK(val(c[at + i]) == v[from + i], w); } }
};

// ------------------------------------------------------------------ strong guarantee
template <Kind K, class T> void strong() {
  heap_start();
  typedef seq_t<K, T, Alloc<T, 0>> C;
  {
    C c; Seq m; u32 op = (u32)sx_range("op", 0, 3);
    build<K>(c, m, shape<K>(SLK, NMAX, SLK));
    Snap<C> s(c); bool thrown = false; const usz af = [&] { if constexpr (two_ended<K>) return c.available_front(); else return 0; }();
    auto b = c.begin(), e = c.end(); const char* w = "";
    const u32 k = (u32)pick("k", 0, m.n + 5);
    arm("t", 20); const u32 blocks = g.nblk;
    try {
      switch (op) {
        case 0: if constexpr (has_op<K, T>(RESERVE)) { w = "reserve"; c.reserve(k); } break;
        case 1: if constexpr (two_ended<K>) { w = "reserve_front"; c.reserve_front(k); } break;
        case 2: if constexpr (two_ended<K>) { w = "reserve_back"; c.reserve_back(k); } break;
        case 3: if constexpr (has_op<K, T>(SHRINK)) { w = "shrink_to_fit"; c.shrink_to_fit(); } break;
      }
    } catch (Bang&) { thrown = true; }
    disarm();
    CHECK(thrown == g.thrown, "an exception raised by an element or the allocator was swallowed");
    if (thrown) {
      const char* x = "reserve/shrink_to_fit failed but had an effect";
      CHECK(c.size() == s.n, x); s.same_refs(c, 0, s.n, 0, x);
      if (contiguous<K>) { CHECK(c.capacity() == s.cap && c.begin() == b && c.end() == e && g.nblk == blocks, x); if constexpr (two_ended<K>) CHECK(c.available_front() == af, x); }
      else CHECK(c.capacity() >= s.n, x);
      sx_reach("thrown"); sx_reach(w);
    }
    all_observers(c, m); obs_seq(c);
  }
  all_returned(); heap_check(); obs_mon();
}
extern "C" void strong_EA() { strong<Kind(KK), EA>(); }
extern "C" void strong_EB() { strong<Kind(KK), EB>(); }
extern "C" void strong_EC() { strong<Kind(KK), EC>(); }
extern "C" void strong_EM() { strong<Kind(KK), EM>(); }

// ------------------------------------------------------------------ capacity and reference stability
// Documented values of capacity() after reserve()/shrink_to_fit()/clear(); an operation whose result fits
// does not allocate and keeps the references the operation does not have to invalidate.
template <Kind K, class T> void cap() {
  heap_start();
  typedef seq_t<K, T, Alloc<T, 0>> C;
  {
    C c; Seq m; u32 op = (u32)sx_range("op", 0, NSEQOP - 1);
    build<K>(c, m, shape<K>(SLK, NMAX, SLK));
    const bool hasN = K == SMALL; const usz N = SMALL_N;
    Snap<C> s(c); Seq before = m; usz af = 0, ab = c.capacity() - c.size();
    if constexpr (two_ended<K>) { af = c.available_front(); ab = c.available_back(); CHECK(K != DEVECTOR || af + ab + c.size() == c.capacity(), "available_front() + size() + available_back() differs from capacity()"); }
    if constexpr (K == COMPACT) CHECK(c.capacity() == c.size() && c.available() == 0, "compact_vector: capacity() differs from size()");
    if constexpr (K == STATIC) CHECK(c.capacity() == STATIC_N && c.max_size() == STATIC_N && C::static_capacity == STATIC_N, "static_vector: capacity() differs from N");
    if (hasN) { CHECK(c.capacity() >= N, "small_vector: capacity() below N"); if (c.size() <= N && c.capacity() == N) CHECK(g.nblk == 0, "small_vector: allocated although the elements fit inside"); CHECK((c.capacity() > N) == (g.nblk == 1), "small_vector: capacity() does not tell whether storage is allocated"); }
    const u32 na = g.nalloc, nd = g.ndealloc, blocks = g.nblk; const u32 mv = g.moves + g.copies + g.cassigns + g.massigns; (void)mv;
    struct Now { u32 na = 0; void operator()() {} };
    usz capArg = ~usz(0);
    u32 k = 0;
    if (op == RESERVE || op == RESERVE_F || op == RESERVE_B) k = (u32)pick("k", 0, m.n + 4);
    switch (op) {   // operations whose effect on the capacity is documented exactly
      case RESERVE: if constexpr (has_op<K, T>(RESERVE)) { c.reserve(k); if (K == SEGV) CHECK(c.capacity() >= k, "reserve()"); else CHECK(c.capacity() == (k > s.cap ? k : s.cap), "reserve() does not give exactly the capacity asked for"); capArg = k; sx_reach("reserve"); } break;
      case SHRINK: if constexpr (has_op<K, T>(SHRINK)) { c.shrink_to_fit(); if (K == VECTOR || K == DEVECTOR) CHECK(c.capacity() == m.n, "shrink_to_fit() leaves spare capacity"); if (hasN) CHECK(c.capacity() == (m.n > N ? m.n : N), "shrink_to_fit() leaves spare capacity"); if (K == SEGV || K == SEGD) CHECK(c.capacity() <= s.cap && c.capacity() < m.n + 2 * SEG_N + 1, "shrink_to_fit() leaves spare capacity"); sx_reach("shrink_to_fit"); } break;
      case RESERVE_F: if constexpr (two_ended<K>) { c.reserve_front(k); if (k > m.n) CHECK(c.available_front() >= k - m.n, "reserve_front()"); CHECK(c.available_back() >= ab, "reserve_front() took space at the back"); capArg = k; sx_reach("reserve_front"); } break;
      case RESERVE_B: if constexpr (two_ended<K>) { c.reserve_back(k); if (k > m.n) CHECK(c.available_back() >= k - m.n, "reserve_back()"); CHECK(c.available_front() >= af, "reserve_back() took space at the front"); capArg = k; sx_reach("reserve_back"); } break;
      default: step<K>(c, m, op, KMAX); break;
    }
    const usz n = c.size();
    all_observers(c, m);
    if (K == COMPACT) CHECK(c.capacity() == n, "compact_vector: capacity() differs from size()");
    if (K == STATIC) CHECK(c.capacity() == STATIC_N, "static_vector: capacity() differs from N");
    const bool two = op == COPY_ASG || op == MOVE_ASG || op == SWAP_M || op == SWAP_F;
    if (hasN && !two) { CHECK(c.capacity() >= N, "small_vector: capacity() below N"); CHECK((c.capacity() > N) == (g.nblk == 1), "small_vector: capacity() does not tell whether storage is allocated"); if (s.cap == N && n <= N && capArg == ~usz(0)) CHECK(c.capacity() == N && g.nalloc == na, "small_vector: allocated although the elements fit inside"); }
    if (!two && K != COMPACT) {
      // does the result fit into the storage that was there?
      bool fits;
      const usz grow = n > s.n ? n - s.n : 0;
      if (two_ended<K>) fits = op == PUSHF_C || op == PUSHF_M || op == EMPL_F || op == RESIZE_F || op == RESIZE_FV ? grow <= af : op == PUSH_C || op == PUSH_M || op == EMPL_B || op == RESIZE_BK || op == RESIZE_BV ? grow <= ab : grow == 0 && op < ASG_N;
      else fits = n <= s.cap;
      if (op == RESERVE) fits = k <= s.cap; if (op == RESERVE_F) fits = k <= s.n + af; if (op == RESERVE_B) fits = k <= s.n + ab;
      if (op == SHRINK) fits = false;
      if (op == CLEAR || op == POP_B || op == POP_F || op == ERASE1 || op == ERASE_R || op == ERASE_IF || op == ERASE_VAL) { CHECK(c.capacity() == s.cap, "removing elements changed capacity()"); fits = true; }
      if (fits) {
        CHECK(g.nalloc == na && g.ndealloc == nd && c.capacity() == s.cap, "storage was reallocated although the result fits");
        sx_reach("fits");
        // elements that need not move keep their place
        usz p = 0; // length of the unchanged prefix
        switch (op) {
          case PUSH_C: case PUSH_M: case EMPL_B: case RESERVE: case RESERVE_F: case RESERVE_B: p = s.n; break;
          case RESIZE: case RESIZE_V: case RESIZE_BK: case RESIZE_BV: case POP_B: p = s.n < n ? s.n : n; break;
          default: p = 0;
        }
        if (two_ended<K> && (op == RESIZE || op == RESIZE_V)) p = 0;
        s.same_refs(c, 0, p, 0, "an element moved although the result fits");
        if (op == PUSHF_C || op == PUSHF_M || op == EMPL_F || op == RESIZE_F || op == RESIZE_FV) { if (n >= s.n) s.same_refs(c, 0, s.n, n - s.n, "an element moved although the result fits"); else s.same_refs(c, s.n - n, n, 0, "an element moved although the result fits"); }
        if (two_ended<K> && op == POP_F && s.n) s.same_refs(c, 1, s.n - 1, 0, "pop_front() moved an element");
        // insertion and erasure in one-ended containers: everything in front of the position stays
        if (!two_ended<K> && (op == INS_C || op == INS_M || op == EMPL || op == INS_N || op == INS_FW || op == INS_IN || op == INS_BI || op == INS_IL || op == ERASE1 || op == ERASE_R))
          for (usz i = 0; i < s.n && i < n && before.a[i] == m.a[i]; i++) CHECK(AD %c[i] == s.p[i], "an element in front of the position moved");
      }
      // segmented containers: growing at an end and changing the capacity never moves elements
      if (!contiguous<K>) {
        if (op == PUSH_C || op == PUSH_M || op == EMPL_B || op == RESIZE_BK || op == RESIZE_BV || (K == SEGV && (op == RESIZE || op == RESIZE_V))) s.same_refs(c, 0, s.n < n ? s.n : n, 0, "growing at the back invalidated a reference");
        if (op == PUSHF_C || op == PUSHF_M || op == EMPL_F || op == RESIZE_F || op == RESIZE_FV) { if (n >= s.n) s.same_refs(c, 0, s.n, n - s.n, "growing at the front invalidated a reference"); }
        if (op == RESERVE || op == RESERVE_F || op == RESERVE_B || op == SHRINK) s.same_refs(c, 0, s.n, 0, "reserve()/shrink_to_fit() invalidated a reference");
        sx_reach("segmented");
      }
    }
    // after reserve the promised number of elements can be added without any allocation
    if (capArg != ~usz(0) && k > m.n) {
      const u32 a0 = g.nalloc; Snap<C> t(c);
      for (usz i = m.n; i < k; i++) { u32 x = sx_u32("y"); if (op == RESERVE_F) { if constexpr (two_ended<K>) { c.emplace_front(x); m.ins1(0, x); } } else { c.emplace_back(x); m.push(x); } }
      CHECK(g.nalloc == a0, "allocation although the space had been reserved");
      if (op == RESERVE_F) t.same_refs(c, 0, t.n, k - t.n, "an element moved although the space had been reserved"); else t.same_refs(c, 0, t.n, 0, "an element moved although the space had been reserved");
      same1(c, m); sx_reach("reserved");
    }
    obs_seq(c);
  }
  all_returned(); heap_check(); obs_mon();
}
extern "C" void cap_EN() { cap<Kind(KK), EN>(); }
extern "C" void cap_u32() { cap<Kind(KK), u32>(); }
extern "C" void cap_EB() { cap<Kind(KK), EB>(); }

// ------------------------------------------------------------------ copy, move, swap
template <Kind K, class T> void cms() {
  heap_start();
  typedef seq_t<K, T, Alloc<T, POCMA>> C;
  constexpr bool cp = std::is_copy_constructible_v<T>;
  {
    u32 what = (u32)sx_range("what", 0, 8), side = (u32)pick("side", 0, 1);
    static const u32 ops[] = {PUSH_C, EMPL_B, INS_N, EMPL, ERASE1, CLEAR, SHRINK, ASG_FW, COPY_ASG, MOVE_ASG, SWAP_M, PUSHF_C, POP_F, RESIZE};
    const u32 op = ops[pick("nextop", 0, 13)];
    C a; Seq ma, mb; build<K>(a, ma, shape<K>(1, NMAX, 1));
    // whatever is left of a moved-from container is its new content
    auto reread = [&](C& x, Seq& m, bool empty) { valid(x); if (empty && (K == COMPACT || K == SEGV || K == SEGD)) CHECK(x.size() == 0, "moved-from container is not empty"); m.n = 0; for (auto& e : x) { u32 y = sx_u32("w"); setv(e, y); m.push(y); } };
    auto both = [&](C& x, Seq& mx, C& y, Seq& my) {
      same1(x, mx); same1(y, my);
      for (u32 i = 0; i < mx.n; i++) for (u32 j = 0; j < my.n; j++) CHECK(AD %x[i] != AD %y[j], "two containers share an element");
      if (side == 0) { step<K>(x, mx, op, 1); } else { step<K>(y, my, op, 1); }
      same1(x, mx); same1(y, my); obs_seq(x); obs_seq(y);
    };
    const T* p0 = a.empty() ? nullptr : AD %a.front();
    switch (what) {
      case 0: if constexpr (cp) { C b(a); mb = ma; both(a, ma, b, mb); sx_reach("copy ctor"); } break;
      case 1: { const u32 el = g.copies + g.moves, na = g.nalloc; C b(std::move(a)); mb = ma; reread(a, ma, true); if (K != SMALL && K != STATIC && p0) { CHECK(AD %b.front() == p0 && g.copies + g.moves == el, "move construction touches elements"); if (K != SEGV && K != SEGD) CHECK(g.nalloc == na, "move construction allocates"); } both(a, ma, b, mb); sx_reach("move ctor"); break; }
      case 2: if constexpr (cp) { C b; build<K>(b, mb, shape<K>(1, NMAX, 1)); a = b; ma = mb; both(a, ma, b, mb); sx_reach("copy assignment"); } break;
      case 3: { C b; build<K>(b, mb, shape<K>(1, NMAX, 1)); const T* q = b.empty() ? nullptr : AD %b.front(); const u32 el = g.copies + g.moves + g.cassigns + g.massigns; a = std::move(b); ma = mb; reread(b, mb, false); if (K != SMALL && K != STATIC && q) CHECK(AD %a.front() == q && g.copies + g.moves + g.cassigns + g.massigns == el, "move assignment touches elements"); both(a, ma, b, mb); sx_reach("move assignment"); break; }
      case 4: { C b; build<K>(b, mb, shape<K>(1, NMAX, 1)); const T* q = b.empty() ? nullptr : AD %b.front(); a.swap(b); std::swap(ma, mb); if (K != SMALL && K != STATIC) CHECK((!p0 || AD %b.front() == p0) && (!q || AD %a.front() == q), "swap() moves elements"); both(a, ma, b, mb); sx_reach("swap"); break; }
      case 5: { C b; build<K>(b, mb, shape<K>(1, NMAX, 1)); using std::swap; swap(a, b); std::swap(ma, mb); both(a, ma, b, mb); sx_reach("swap(free)"); break; }
      case 6: if constexpr (cp) { C& r = a; a = r; same(a, ma); step<K>(a, ma, op, 1); same(a, ma); sx_reach("self copy assignment"); } break;
      case 7: { C& r = a; a.swap(r); same(a, ma); step<K>(a, ma, op, 1); same(a, ma); sx_reach("self swap"); break; }
      case 8: { C& r = a; a = std::move(r); reread(a, ma, false); step<K>(a, ma, op, 1); same(a, ma); sx_reach("self move assignment"); break; }
    }
  }
  all_returned(); heap_check(); obs_mon();
}
extern "C" void cms_EN() { cms<Kind(KK), EN>(); }
extern "C" void cms_u32() { cms<Kind(KK), u32>(); }
extern "C" void cms_EM() { cms<Kind(KK), EM>(); }
