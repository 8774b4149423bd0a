// Elements are moved where the interface says so and never copied behind the user's back;
// constructor arguments arrive with the value category they were passed with.
#ifdef KK
#include "seq.h"
#else
#include "flat.h"
#endif
using namespace hx;
#ifndef NMAX
#define NMAX 4
#endif
#ifndef SLK
#define SLK 2
#endif
#ifndef KMAX
#define KMAX 3
#endif
struct Copies { u32 at = 0, n = 0; };
#define COUNTED(cc) [&] { cc.at = g.copies + g.cassigns; }, [&] { cc.n = g.copies + g.cassigns - cc.at; }
#ifdef KK
template <Kind K, class T> void copies() {
  {
    seq_t<K, T, Alloc<T, 0>> c; Seq m; const u32 op = (u32)sx_range("op", 0, NSEQOP - 1);
    build<K>(c, m, shape<K>(SLK, NMAX, SLK)); const u32 n = m.n; Copies w;
    step<K>(c, m, op, KMAX, COUNTED(w));
    const u32 more = m.n > n ? m.n - n : 0; u32 lim = 0;
    switch (op) {
      case PUSH_C: case PUSHF_C: case INS_C: lim = 1; break;
      case INS_N: case RESIZE_V: case RESIZE_FV: case RESIZE_BV: lim = more + 1; break;
      case INS_FW: case INS_IN: case INS_IL: case INS_BI: lim = more; break;
      case ASG_N: case ASG_FW: case ASG_IN: case ASG_IL: case ASG_BI: case OPEQ_IL: case COPY_ASG: lim = m.n + (op == ASG_N); break;
      case SELF_ASG: lim = n; break;
      default: lim = 0;   // everything else only moves
    }
    if (op == SELF_ASG) { CHECK(w.n <= lim, "elements are copied although they could be moved"); }
    else CHECK(w.n <= lim, lim ? "more elements are copied than the arguments say" : "elements are copied although they could be moved");
    sx_reach("copies counted"); obs_seq(c);
  }
  all_returned(); obs_mon();
}
extern "C" void copies_EN() { copies<Kind(KK), EN>(); }
// value categories of constructor arguments
template <Kind K, class T> void cats() {
  typedef seq_t<K, T, Alloc<T, HOOK>> C;
  {
    C c; Seq m; const u32 op = (u32)sx_range("op", 0, 2), how = (u32)sx_range("how", 0, 4); build<K>(c, m, shape<K>(SLK, NMAX, SLK)); const u32 n = m.n; if (K == STATIC && n == STATIC_N) return;
    const u32 x = sx_u32("x"); Cat a{x}; const Cat b{x}; const u32 p = op == 0 ? n : op == 1 ? 0 : (u32)pick("p", 0, n);
    const u32 cp = g.copies + g.cassigns;
    auto go = [&](auto&&... z) {
      if (op == 0) c.emplace_back(std::forward<decltype(z)>(z)...);
      else if (op == 1) { if constexpr (two_ended<K>) c.emplace_front(std::forward<decltype(z)>(z)...); }
      else c.emplace(c.begin() + p, std::forward<decltype(z)>(z)...);
    };
    if (op == 1 && !two_ended<K>) return;
    switch (how) { case 0: go(a); break; case 1: go(b); break; case 2: go(std::move(a)); break; case 3: go(std::move(b)); break; case 4: go(a, b, std::move(a)); break; }
    CHECK(c[p].tag == VC_L + how, "a constructor argument does not arrive with its value category");
    CHECK(g.copies + g.cassigns == cp, "emplacing copies elements");
    m.ins1(p, x); same1(c, m); sx_reach("emplaced"); obs_seq(c);
  }
  all_returned(); obs_mon();
}
extern "C" void cats_EN() { cats<Kind(KK), EN>(); }
extern "C" void cats_EM() { cats<Kind(KK), EM>(); }
#else
template <class F> void copies() {
  typedef typename F::type C; constexpr u32 per = F::map ? 2 : 1;
  {
    Fm m; m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55; const u32 op = (u32)sx_range("op", 0, NFOP - 1);
    C c{typename F::cmp(m.dir, m.id)}; fbuild<F>(c, m, fshape<F>(NMAX, 1)); Copies w;
    fstep<F>(c, m, op, KMAX, COUNTED(w));
    u32 lim = 0;
    switch (op) {
      case F_INS_C: case F_HINS_C: lim = per; break;
      case F_INS_RFW: case F_INS_RIN: lim = per * KMAX; break;
      case F_INS_IL: case F_IL_ASG: lim = per * 2; break;
      case F_COPY_ASG: case F_SELF: lim = per * m.n; break;
      case F_IOA_C: case F_HIOA_C: lim = 1 + hx_lv; break;
      case F_IOA_M: case F_HIOA_M: case F_IOA_K: case F_HIOA_K: lim = hx_lv; break;
      case F_TRY_C: case F_HTRY_C: case F_SUB_C: lim = 1; break;
      case F_INS_P: case F_HINS_P: lim = hx_lv; break;
    }
    CHECK(w.n <= lim, lim ? "more elements are copied than the arguments say" : "elements are copied although they could be moved");
    sx_reach("copies counted"); fobs<F>(c);
  }
  all_returned();
}
extern "C" void copies_EN() { copies<Fam<FK, EN, EN, CM_TRANSP, Alloc<u32, 0>>>(); }
template <class F> void cats() {
  typedef typename F::type C; typedef typename F::key K; typedef typename F::mapped M;
  {
    Fm m; m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55; const u32 op = (u32)sx_range("op", 0, 9), how = (u32)sx_range("how", 0, 3);
    C c{typename F::cmp(m.dir, m.id)}; fbuild<F>(c, m, fshape<F>(NMAX - 1, 1)); if (F::stat && m.n == STATIC_N) return;
    const u32 x = sx_u32("x"), y = sx_u32("y"); sx_assume(m.find(y) < 0); Cat a{x}; const Cat b{x}; const u32 h = (u32)pick("h", 0, m.n);
    const u32 cp = g.copies + g.cassigns; const K key(y, 77); Probe pr{y, 77}; K km(y, 77); const auto hi = c.cbegin() + h; u32 got = 0, lim = 0;
    auto mapped = [&](auto it) { if constexpr (F::map) { CHECK(val(it->first) == y, "insertion returns another element"); CHECK(val(it->second) == x, "mapped value"); got = tagof(it->second); } else { CHECK(val(*it) == x, "insertion returns another element"); got = tagof(*it); } };
    bool done = true;
    auto go = [&](auto&& z) {
#define Z std::forward<decltype(z)>(z)
      switch (op) {
        case 0: if constexpr (F::map) { auto r = c.emplace(std::piecewise_construct, std::forward_as_tuple(y, 77u), std::forward_as_tuple(Z)); if constexpr (F::multi) mapped(r); else mapped(r.first); } else { sx_assume(m.find(x) < 0); auto r = c.emplace(Z); if constexpr (F::multi) mapped(r); else mapped(r.first); } break;
        case 1: if constexpr (F::map) mapped(c.emplace_hint(hi, std::piecewise_construct, std::forward_as_tuple(y, 77u), std::forward_as_tuple(Z))); else { sx_assume(m.find(x) < 0); mapped(c.emplace_hint(hi, Z)); } break;
        case 2: if constexpr (std::is_copy_constructible_v<K> && requires { c.try_emplace(key, Z); }) { mapped(c.try_emplace(key, Z).first); lim = 1; } else done = false; break;
        case 3: if constexpr (requires { c.try_emplace(std::move(km), Z); }) mapped(c.try_emplace(std::move(km), Z).first); else done = false; break;
        case 4: if constexpr (requires { c.try_emplace(pr, Z); }) mapped(c.try_emplace(pr, Z).first); else done = false; break;
        case 5: if constexpr (std::is_copy_constructible_v<K> && requires { c.try_emplace(hi, key, Z); }) { mapped(c.try_emplace(hi, key, Z)); lim = 1; } else done = false; break;
        case 6: if constexpr (requires { c.try_emplace(hi, std::move(km), Z); }) mapped(c.try_emplace(hi, std::move(km), Z)); else done = false; break;
        case 7: if constexpr (requires { c.try_emplace(hi, pr, Z); }) mapped(c.try_emplace(hi, pr, Z)); else done = false; break;
        default: done = false;
      }
    };
    switch (how) { case 0: go(a); break; case 1: go(b); break; case 2: go(std::move(a)); break; case 3: go(std::move(b)); break; }
    if (!done) return;
    CHECK(got == VC_L + how, "a constructor argument does not arrive with its value category");
    CHECK(g.copies + g.cassigns - cp <= lim, "emplacing copies elements");
    sx_reach("emplaced"); sx_obs(got); obs_mon();
  }
  all_returned();
}
extern "C" void cats_EN() { cats<Fam<FK, EN, EN, CM_TRANSP, Alloc<u32, HOOK>>>(); }
extern "C" void cats_EM() { cats<Fam<FK, EM, EM, CM_TRANSP, Alloc<u32, HOOK>>>(); }
#endif
