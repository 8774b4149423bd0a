// One operation from an arbitrary shape against the abstract sequence.
#include "seq.h"
using namespace hx;
#ifndef NMAX
#define NMAX 4
#endif
#ifndef SLK
#define SLK 2
#endif
#ifndef KMAX
#define KMAX 3
#endif
template <Kind K, class T> void one() {
  {
    seq_t<K, T, Alloc<T, 0>> c; Seq m;
    u32 op = (u32)sx_range("op", 0, NSEQOP - 1);
    build<K>(c, m, shape<K>(SLK, NMAX, SLK));
    step<K>(c, m, op, KMAX);
    all_observers(c, m);
    obs_seq(c);
  }
  all_returned(); obs_mon();
}
extern "C" void one_EN() { one<Kind(KK), EN>(); }
extern "C" void one_u32() { one<Kind(KK), u32>(); }
extern "C" void one_EM() { one<Kind(KK), EM>(); }
extern "C" void one_EC() { one<Kind(KK), EC>(); }

// Histories from the empty container.
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef HMAX
#define HMAX 2
#endif
template <Kind K, class T> void hist() {
  {
    seq_t<K, T, Alloc<T, 0>> c; Seq m;
    for (int i = 0; i < DEPTH; i++) {
      u32 op = (u32)sx_range("op", 0, NSEQOP - 1);
#ifdef HNOTWO
      sx_assume(op < COPY_ASG || op > SWAP_F);
#endif
      if (m.n > 8) break;
      step<K>(c, m, op, HMAX);
      same1(c, m);
    }
    same(c, m);
    obs_seq(c);
  }
  all_returned(); obs_mon();
}
extern "C" void hist_EN() { hist<Kind(KK), EN>(); }
extern "C" void hist_EC() { hist<Kind(KK), EC>(); }
extern "C" void hist_EM() { hist<Kind(KK), EM>(); }
extern "C" void hist_u32() { hist<Kind(KK), u32>(); }

// Longer histories of single-element operations (growing, shrinking and shifting at both ends).
template <Kind K, class T> void ends() {
  static const u32 ops[] = {EMPL_B, POP_B, EMPL_F, POP_F, EMPL, ERASE1, SHRINK, CLEAR, RESIZE, RESERVE_F};
  {
    seq_t<K, T, Alloc<T, 0>> c; Seq m;
    for (int i = 0; i < DEPTH; i++) {
      u32 o = (u32)pick("op", 0, 9); const u32 n = m.n, op = ops[o];
      if (op == EMPL) { if (K == STATIC && n == STATIC_N) break; u32 w = (u32)pick("p", 0, 1), p = w ? n / 2 : n > 1, x = sx_u32("x"); auto r = c.emplace(c.begin() + p, x); m.ins1(p, x); CHECK(r == c.nth(p), "emplace() return value"); }
      else if (op == ERASE1) { if (!n) break; u32 w = (u32)pick("p", 0, 1), p = w ? n / 2 : n > 1; auto r = c.erase(c.begin() + p); m.del(p, 1); CHECK(r == c.nth(p), "erase(pos) return value"); }
      else if (op == RESIZE) { if (n >= 2) break; c.resize(3); grown<K>(c, m, 3, defval<T>()); }
      else if (op == RESERVE_F) { if constexpr (two_ended<K>) c.reserve_front(n + 2); else if constexpr (has_op<K, T>(RESERVE)) c.reserve(n + 2); }
      else if ((op == EMPL_F || op == POP_F) && !two_ended<K>) break;
      else { if ((op == POP_B || op == POP_F) && !n) break; step<K>(c, m, op, 1); }
      same1(c, m);
    }
    same(c, m);
    obs_seq(c);
    sx_reach("history");
  }
  all_returned(); obs_mon();
}
extern "C" void ends_EN() { ends<Kind(KK), EN>(); }
extern "C" void ends_u32() { ends<Kind(KK), u32>(); }
