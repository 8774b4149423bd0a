// Associative containers: one operation from an arbitrary state / short histories, against an
// abstract multiset of (key, identity, mapped value).
#include "flat.h"
using namespace hx;
#ifndef NMAX
#define NMAX 4
#endif
#ifndef SLK
#define SLK 2
#endif
#ifndef KMAX
#define KMAX 2
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
template <class F> void one(u32 nmax, u32 slk) {
  {
    Fm m; u32 op = (u32)sx_range("op", 0, NFOP - 1);
    m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55;
    typename F::type c{typename F::cmp(m.dir, m.id)};
    fbuild<F>(c, m, fshape<F>(nmax, slk));
    fstep<F>(c, m, op, KMAX);
    fobservers<F>(c, m);
    fobs<F>(c);
  }
  all_returned();
}
extern "C" void one_EN() { one<Fam<FK, EN, EN, 0, Alloc<u32, 0>>>(NMAX, SLK); }
extern "C" void one_tr() { one<Fam<FK, EN, EN, CM_TRANSP, Alloc<u32, 0>>>(NMAX - 1, 1); }
extern "C" void one_EM() { one<Fam<FK, EM, EM, 0, Alloc<u32, 0>>>(NMAX - 1, 1); }
extern "C" void one_EC() { one<Fam<FK, EC, EC, 0, Alloc<u32, 0>>>(NMAX - 1, 1); }
extern "C" void one_tv() { one<Fam<FK, Triv, u32, CM_TRANSP, Alloc<u32, 0>>>(NMAX - 1, SLK); }
template <class F> void hist() {
  {
    Fm m; m.dir = F::unord ? 0 : (u32)pick("dir", 0, 1); m.id = 55;
    typename F::type c{typename F::cmp(m.dir, m.id)};
    for (int i = 0; i < DEPTH; i++) {
      u32 op = (u32)sx_range("op", 0, NFOP - 1);
      fstep<F>(c, m, op, 2);
      fsame<F>(c, m);
      if (m.n > 5) break;
    }
    fobs<F>(c);
  }
  all_returned();
}
extern "C" void hist_EN() { hist<Fam<FK, EN, EN, CM_TRANSP, Alloc<u32, 0>>>(); }
extern "C" void hist_EC() { hist<Fam<FK, EC, EC, 0, Alloc<u32, 0>>>(); }
