// Iterators are random access iterators over the abstract sequence.
#include "seq.h"
using namespace hx;
#ifndef NMAX
#define NMAX 5
#endif
#ifndef SLK
#define SLK 2
#endif
template <class It, class C> void laws(It b, It e, C& c, u32 n, u32 i, u32 j) {
  typedef std::iterator_traits<It> Tr;
  static_assert(std::is_base_of_v<std::random_access_iterator_tag, typename Tr::iterator_category>);
  typedef typename Tr::difference_type D;
  const D d = D(j) - D(i);
  It x = b + D(i), y = b + D(j);
  CHECK(x - b == D(i) && e - x == D(n) - D(i) && y - x == d && b - x == -D(i), "iterator difference");
  CHECK(x + d == y && y - d == x && d + x == y, "iterator + n / - n");
  { It t = x; It& r = (t += d); CHECK(AD %r == &t && t == y, "+="); It& s = (t -= d); CHECK(&s == &t && t == x, "-="); }
  CHECK((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "iterator comparison");
  CHECK(std::distance(x, y) == d || d < 0, "std::distance");
  if (i < n) {
    It t = x; It& r = ++t; CHECK(AD %r == &t && t == b + D(i + 1) && t - x == 1, "pre-increment");
    It u = x; It v = u++; CHECK(v == x && u == t, "post-increment");
    It w = t; It& s = --w; CHECK(&s == &w && w == x, "pre-decrement");
    It z = t; It o = z--; CHECK(o == t && z == x, "post-decrement");
    CHECK(x.operator->() == AD %*x && AD %x[0] == AD %*x && AD %b[D(i)] == AD %*x, "dereference");
  }
  if (j < n) CHECK(AD %x[d] == AD %*y && AD %*(x + d) == AD %*y && AD %*(y - 0) == AD %*y, "subscript");
  (void)c;
}
template <Kind K, class T> void iter() {
  {
    seq_t<K, T, Alloc<T, 0>> c; Seq m;
    build<K>(c, m, shape<K>(SLK, NMAX, SLK));
    const auto& k = c; const u32 n = m.n;
    u32 i = (u32)pick("i", 0, n), j = (u32)pick("j", 0, n), what = (u32)sx_range("op", 0, 5);
    typedef typename std::remove_reference_t<decltype(c)>::const_iterator CI; typedef typename std::remove_reference_t<decltype(c)>::iterator I;
    switch (what) {
      case 0: laws(c.begin(), c.end(), c, n, i, j); if (i < n) CHECK(val(c.begin()[i]) == m.a[i], "iterator reaches another element"); sx_reach("iterator"); break;
      case 1: laws(k.begin(), k.end(), k, n, i, j); if (i < n) CHECK(val(k.begin()[i]) == m.a[i], "iterator reaches another element"); sx_reach("const_iterator"); break;
      case 2: laws(c.rbegin(), c.rend(), c, n, i, j); if (i < n) CHECK(val(c.rbegin()[i]) == m.a[n - 1 - i], "reverse iterator reaches another element"); sx_reach("reverse_iterator"); break;
      case 3: laws(k.rbegin(), k.rend(), k, n, i, j); if (i < n) CHECK(val(k.crbegin()[i]) == m.a[n - 1 - i], "reverse iterator reaches another element"); sx_reach("const_reverse_iterator"); break;
      case 4: { // mixed const / non-const
        I x = c.begin() + i; CI y = k.begin() + j; CI cx = x;
        CHECK(cx == x && cx - k.begin() == std::ptrdiff_t(i), "conversion to const_iterator");
        CHECK((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "mixed comparison");
        CHECK((y == x) == (i == j) && (y < x) == (j < i) && y - x == std::ptrdiff_t(j) - std::ptrdiff_t(i) && x - y == std::ptrdiff_t(i) - std::ptrdiff_t(j), "mixed difference");
        CI as; as = x; CHECK(as == cx, "assignment to const_iterator");
        static_assert(!std::is_convertible_v<CI, I>);
        sx_reach("mixed"); break; }
      case 5: // nth / index_of / write through
        CHECK(c.nth(i) == c.begin() + i && k.nth(i) == k.begin() + i && c.index_of(c.begin() + j) == j && k.index_of(k.cbegin() + j) == j, "nth()/index_of()");
        if (i < n) { u32 x = sx_u32("x"); setv(*(c.end() - (n - i)), x); m.a[i] = x; }
        if (j < n && j != i) { using std::swap; if (i < n && std::is_move_assignable_v<T>) { std::iter_swap(c.begin() + i, c.begin() + j); u32 t = m.a[i]; m.a[i] = m.a[j]; m.a[j] = t; } }
        sx_reach("nth"); break;
    }
    same1(c, m); obs_seq(c);
  }
  all_returned();
}
// standard algorithms that rely on random access
template <Kind K, class T> void algo() {
  {
    seq_t<K, T, Alloc<T, 0>> c; Seq m;
    build<K>(c, m, shape<K>(SLK, 4, 1));
    u32 n = m.n, i = (u32)pick("i", 0, n), what = (u32)sx_range("op", 0, 5);
    switch (what) {
      case 0: { std::rotate(c.begin(), c.begin() + i, c.end()); Seq r; for (u32 q = 0; q < n; q++) r.push(m.a[(q + i) % n]); m = r; sx_reach("rotate"); break; }
      case 1: { std::reverse(c.begin(), c.begin() + i); Seq r = m; for (u32 q = 0; q < i; q++) r.a[q] = m.a[i - 1 - q]; m = r; sx_reach("reverse"); break; }
      case 2: { std::sort(c.begin(), c.end()); for (u32 q = 0; q + 1 < n; q++) CHECK(val(c[q]) <= val(c[q + 1]), "std::sort over the iterators"); u32 x = sx_u32("x"); u32 a = 0, b = 0; for (u32 q = 0; q < n; q++) { a += m.a[q] == x; b += val(c[q]) == x; } CHECK(a == b, "std::sort over the iterators"); for (u32 q = 0; q < n; q++) m.a[q] = val(c[q]); sx_reach("sort"); break; }
      case 3: { u32 x = sx_u32("x"); auto it = std::find(c.begin(), c.end(), T(x)); u32 q = 0; while (q < n && m.a[q] != x) q++; CHECK(it - c.begin() == std::ptrdiff_t(q), "std::find over the iterators"); sx_reach("find"); break; }
      case 4: { T buf[4]; u32 q = 0; if constexpr (std::is_copy_assignable_v<T>) { auto e = std::copy(c.cbegin() + i, c.cend(), buf); CHECK(e - buf == std::ptrdiff_t(n - i), "std::copy"); for (q = i; q < n; q++) CHECK(val(buf[q - i]) == m.a[q], "std::copy from the container"); } sx_reach("copy"); break; }
      case 5: { auto it = std::make_move_iterator(c.begin()); (void)it; u32 q = n; for (auto r = std::make_reverse_iterator(c.end()); r != std::make_reverse_iterator(c.begin()); ++r) CHECK(val(*r) == m.a[--q], "reverse traversal"); sx_reach("reverse traversal"); break; }
    }
    same1(c, m); obs_seq(c);
  }
  all_returned();
}
extern "C" void iter_EN() { iter<Kind(KK), EN>(); }
extern "C" void iter_u32() { iter<Kind(KK), u32>(); }
extern "C" void algo_EN() { algo<Kind(KK), EN>(); }
extern "C" void algo_u32() { algo<Kind(KK), u32>(); }
