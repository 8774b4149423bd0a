// Shared parts of the harnesses: tracked elements, tracked allocator,
// fault points, iterator wrappers, abstract sequence model.
#pragma once
#include "sx.h"
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>

#define CHECK(c, m) sx_check((c), m)
#ifdef SFL_NO_EXCEPTIONS   // built with -fno-exceptions: nothing in the harness throws either
#define HX_THROW(e) sx_fail("harness: exception without exception support")
#else
#define HX_THROW(e) throw e
#endif
typedef std::uint32_t u32;
typedef std::uint64_t u64;
#ifndef MAXBLK
#define MAXBLK 48   // blocks of storage at a time
#endif
typedef std::size_t usz;

#ifdef COUNT_NEW   // every use of the global heap is counted
#include <cstdlib>
namespace hx { constinit inline u32 news = 0; constinit inline u32 news0 = 0; }
void* operator new(usz n) { hx::news++; return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, usz) noexcept { std::free(p); }
#endif
namespace hx {

struct Bang { int v = 1; };

// ---------------------------------------------------------------- global monitor
struct Block { void* p = nullptr; usz n = 0; u32 id = 0; u32 tsz = 0; };
struct Mon {
  long live = 0;                       // tracked elements alive
  u32 made = 0, copies = 0, moves = 0, cassigns = 0, massigns = 0, dtors = 0, cmps = 0;
  u32 nalloc = 0, ndealloc = 0;
  long live_by_alloc = 0;              // constructed through allocator_traits hook
  u32 ops = 0; u32 throw_at = 0; bool armed = false, thrown = false, in_cmp = false, thrown_by_cmp = false;
  bool in_alloc = false, in_destroy = false;               // inside construct/destroy of a tracked allocator
  usz maxn = ~usz(0) >> 1;             // max_size() of allocators with the flag MAXN
  u32 max_blk = MAXBLK;                    // more blocks than this at a time report bad_alloc
  usz alloc_limit = ~usz(0) >> 1;      // allocate(n) with n*size above this reports bad_alloc
  Block blk[MAXBLK]; u32 nblk = 0;
};
constinit inline Mon g;

// A point at which a user-supplied operation may fail.
inline void point() {
  if (g.armed) {
    u32 k = g.ops++;
    if (k == g.throw_at) { g.armed = false; g.thrown = true; g.thrown_by_cmp = g.in_cmp; HX_THROW(Bang()); }
  }
}
inline void arm(const char* n, u32 hi) { g.throw_at = (u32)sx_range(n, 0, hi); g.ops = 0; g.armed = true; g.thrown = g.in_cmp = g.thrown_by_cmp = false; }
inline void disarm() { g.armed = false; }

// pick: symbolic choice made concrete (the solver splits the path)
inline u64 pick(const char* n, u64 lo, u64 hi) { return sx_conc(sx_range(n, lo, hi)); }

// ---------------------------------------------------------------- tracked element
struct AddrOf { template <class T> T* operator%(T& x) const { return std::addressof(x); } };   // AD %x: address of x, whatever its operator&
constexpr AddrOf AD{};
enum : u32 { LIVE = 0xA11CE5u, MOVED = 0x30BEDu, DEAD = 0xDEADDEADu };
enum { COPY = 1, MOVE = 2, COPY_T = 4, MOVE_T = 8, CONV_T = 16 };
const u32 DEFV = 0x0DEFu;

struct Cat { u32 v; };               // constructor argument: the element records how it arrived
enum { VC_L = 101, VC_CL = 102, VC_R = 103, VC_CR = 104 };
struct Probe { u32 v; u32 tag; };   // looked up heterogeneously; converts to a key explicitly
template <int F> struct Elem {
  u32 v; u32 tag; u32 st; Elem* self; bool ba;   // value, identity, state
  void born(u32 x, u32 t) { v = x; tag = t; st = LIVE; self = this; ba = g.in_alloc; g.live++; g.made++; if (ba) g.live_by_alloc++; }
  bool ok() const { return self == this && (st == LIVE || st == MOVED); }
  void need(const char* m) const { CHECK(self == this, m); CHECK(st == LIVE || st == MOVED, m); }
  Elem() { if (F & CONV_T) point(); born(DEFV, 0); }
  Elem(u32 x) { if (F & CONV_T) point(); born(x, 0); }
  explicit Elem(const Probe& p) { if (F & CONV_T) point(); born(p.v, p.tag); }
  explicit Elem(Cat& c) { born(c.v, VC_L); } explicit Elem(const Cat& c) { born(c.v, VC_CL); } explicit Elem(Cat&& c) { born(c.v, VC_R); } explicit Elem(const Cat&& c) { born(c.v, VC_CR); }
  Elem(Cat&, const Cat&, Cat&& c) { born(c.v, 105); } template <class A, class B, class C> requires(std::is_same_v<A, Cat&> || std::is_same_v<A, const Cat&> || std::is_same_v<A, Cat>) Elem(A&&, B&&, C&&) = delete;
  Elem(u32 a, u32 b) { if (F & CONV_T) point(); born(a, b); }
  Elem(const Elem& o) noexcept(!(F & COPY_T)) requires((F & COPY) != 0) {
    o.need("copy from an object that is not alive");
    if (F & COPY_T) point();
    born(o.v, o.tag); st = o.st; g.copies++;
  }
  Elem(Elem&& o) noexcept(!(F & MOVE_T)) requires((F & MOVE) != 0) {
    o.need("move from an object that is not alive");
    if (F & MOVE_T) point();
    u32 x = o.v, t = o.tag, s = o.st;
    o.v = 0xBADBADu; o.tag = 0xBAD; o.st = MOVED;
    born(x, t); st = s; g.moves++;
  }
  Elem& operator=(const Elem& o) noexcept(!(F & COPY_T)) requires((F & COPY) != 0) {
    need("assignment to an object that is not alive"); o.need("copy from an object that is not alive");
    if (F & COPY_T) point();
    v = o.v; tag = o.tag; st = o.st; g.cassigns++; return *this;
  }
  Elem& operator=(Elem&& o) noexcept(!(F & MOVE_T)) requires((F & MOVE) != 0) {
    need("assignment to an object that is not alive"); o.need("move from an object that is not alive");
    if (F & MOVE_T) point();
    u32 x = o.v, t = o.tag, s = o.st;
    o.v = 0xBADBADu; o.tag = 0xBAD; o.st = MOVED;
    v = x; tag = t; st = s; g.massigns++; return *this;
  }
  ~Elem() {
    need("destruction of an object that is not alive");
    if (ba) { CHECK(g.in_destroy, "an element constructed by the allocator is destroyed behind its back"); g.live_by_alloc--; }
    g.live--; g.dtors++; st = DEAD; self = nullptr;
  }
  // traps: element types may overload unary & and comma, and {}-initialisation is not ()-initialisation
  Elem* operator&() { CHECK(false, "overloaded operator& of the element type used"); return this; } const Elem* operator&() const { CHECK(false, "overloaded operator& of the element type used"); return this; }
  template <class X> void operator,(X&&) const { CHECK(false, "overloaded comma operator used"); }
  Elem(std::initializer_list<u32> l) { born(l.size() ? *l.begin() : 0, 0xBAD); CHECK(false, "element constructed from a braced list"); }
  friend bool operator==(const Elem& a, const Elem& b) { a.need("compare"); b.need("compare"); return a.v == b.v; }
  friend bool operator!=(const Elem& a, const Elem& b) { a.need("compare"); b.need("compare"); return a.v != b.v; }
  friend bool operator<(const Elem& a, const Elem& b) { a.need("compare"); b.need("compare"); return a.v < b.v; }
};
typedef Elem<COPY | MOVE> EN;                               // nothing throws
typedef Elem<COPY | MOVE | COPY_T | CONV_T> EA;             // copy may throw, move does not
typedef Elem<COPY | MOVE | COPY_T | MOVE_T | CONV_T> EB;    // both may throw
typedef Elem<COPY | COPY_T | CONV_T> EC;                    // copy only
typedef Elem<MOVE | CONV_T> EM;                             // move only
typedef Elem<MOVE | MOVE_T | CONV_T> EMT;                   // move only, throwing

// observation of an element value, whatever its type
template <int F> inline u32 val(const Elem<F>& e) { e.need("element in the container is not alive"); CHECK(e.st == LIVE, "element in the container is moved-from"); return e.v; }
inline u32 val(u32 e) { return e; }
struct Triv { u32 v, tag; Triv() = default; Triv(u32 a) : v(a), tag(0) {} Triv(u32 a, u32 b) : v(a), tag(b) {} explicit Triv(const Probe& p) : v(p.v), tag(p.tag) {}   // trivially copyable
  friend bool operator==(const Triv& a, const Triv& b) { return a.v == b.v; } friend bool operator!=(const Triv& a, const Triv& b) { return a.v != b.v; } friend bool operator<(const Triv& a, const Triv& b) { return a.v < b.v; } };
inline u32 val(const Triv& e) { return e.v; }
inline u32 tagof(const Triv& e) { return e.tag; }
template <int F> inline u32 tagof(const Elem<F>& e) { return e.tag; }
inline bool alive(const Triv&) { return true; }
inline void setv(Triv& e, u32 x) { e.v = x; }
template <int F> inline void setv(Elem<F>& e, u32 x) { e.need("write"); e.v = x; e.st = LIVE; }
inline void setv(u32& e, u32 x) { e = x; }
template <int F> inline bool alive(const Elem<F>& e) { return e.ok(); }
inline bool alive(u32) { return true; }
template <int F> inline u32 val_any(const Elem<F>& e) { return e.v; }
inline u32 val_any(u32 e) { return e; }
inline u32 val_any(const Triv& e) { return e.v; }
// small and large trivial elements, used where lengths matter
typedef std::uint8_t u8;
inline u32 val(u8 x) { return x; } inline u32 val_any(u8 x) { return x; } inline bool alive(u8) { return true; } inline void setv(u8& e, u32 x) { e = (u8)x; }
struct Big { u32 v; u32 pad[9]; Big() : v(0) {} Big(u32 x) : v(x) {} friend bool operator==(const Big& a, const Big& b) { return a.v == b.v; } };
inline u32 val(const Big& b) { return b.v; } inline u32 val_any(const Big& b) { return b.v; } inline bool alive(const Big&) { return true; } inline void setv(Big& b, u32 x) { b.v = x; }
template <class T> struct is_tracked : std::false_type {};
template <int F> struct is_tracked<Elem<F>> : std::true_type {};

// ---------------------------------------------------------------- tracked allocator
enum { POCCA = 1, POCMA = 2, POCS = 4, ALWAYS_EQ = 8, SELECT = 16, HOOK = 32, MAXN = 64, FANCY = 128, NARROW = 256 };
#ifndef XA     // flags added to every allocator of the harness
#define XA 0
#endif
// Self-relative pointer: a class type whose bits are meaningless anywhere else, whose default
// value is not null, and which checks that it is never used before it is set.
template <class T> struct OffPtr {
  typedef T element_type; typedef std::ptrdiff_t difference_type; typedef std::remove_cv_t<T> value_type; typedef T* pointer; typedef T& reference; typedef std::random_access_iterator_tag iterator_category;
  static constexpr std::ptrdiff_t UNSET = 0x5A5A5A5A5A5A5A5B, NIL = 1;
  std::ptrdiff_t d;
  T* get() const { CHECK(d != UNSET, "pointer used before it was set"); return d == NIL ? nullptr : reinterpret_cast<T*>((std::uintptr_t)(d + (std::ptrdiff_t)(std::uintptr_t)this)); }
  void set(T* p) { d = p ? (std::ptrdiff_t)(std::uintptr_t)p - (std::ptrdiff_t)(std::uintptr_t)this : NIL; }
  T* nn(const char* m) const { T* p = get(); CHECK(p != nullptr, m); return p; }
  OffPtr() noexcept : d(UNSET) {}
  OffPtr(std::nullptr_t) noexcept : d(NIL) {}
  struct Raw {}; OffPtr(T* p, Raw) noexcept { set(p); }
  OffPtr(const OffPtr& o) noexcept { if (o.d == UNSET) d = UNSET; else set(o.get()); }
  template <class U> requires(std::is_same_v<const U, T>) OffPtr(const OffPtr<U>& o) noexcept { if (o.d == UNSET) d = UNSET; else set(o.get()); }
  OffPtr& operator=(const OffPtr& o) noexcept { if (o.d == UNSET) d = UNSET; else set(o.get()); return *this; }
  OffPtr& operator=(std::nullptr_t) noexcept { d = NIL; return *this; }
  static OffPtr pointer_to(T& r) noexcept { return OffPtr(std::addressof(r), Raw()); }
  explicit operator bool() const noexcept { return get() != nullptr; }
  T& operator*() const noexcept { return *nn("null pointer dereferenced"); }
  T* operator->() const noexcept { return get(); }
  T& operator[](difference_type n) const noexcept { return nn("null pointer dereferenced")[n]; }
  OffPtr& operator+=(difference_type n) noexcept { T* p = get(); CHECK(p || !n, "arithmetic on a null pointer"); set(p + n); return *this; }
  OffPtr& operator-=(difference_type n) noexcept { T* p = get(); CHECK(p || !n, "arithmetic on a null pointer"); set(p - n); return *this; }
  OffPtr& operator++() noexcept { return *this += 1; } OffPtr operator++(int) noexcept { OffPtr t(*this); *this += 1; return t; }
  OffPtr& operator--() noexcept { return *this -= 1; } OffPtr operator--(int) noexcept { OffPtr t(*this); *this -= 1; return t; }
  friend OffPtr operator+(const OffPtr& p, difference_type n) noexcept { OffPtr t(p); t += n; return t; }
  friend OffPtr operator+(difference_type n, const OffPtr& p) noexcept { OffPtr t(p); t += n; return t; }
  friend OffPtr operator-(const OffPtr& p, difference_type n) noexcept { OffPtr t(p); t -= n; return t; }
  friend difference_type operator-(const OffPtr& a, const OffPtr& b) noexcept { return a.get() - b.get(); }
  friend bool operator==(const OffPtr& a, const OffPtr& b) noexcept { return a.get() == b.get(); } friend bool operator!=(const OffPtr& a, const OffPtr& b) noexcept { return a.get() != b.get(); }
  friend bool operator<(const OffPtr& a, const OffPtr& b) noexcept { return a.get() < b.get(); } friend bool operator>(const OffPtr& a, const OffPtr& b) noexcept { return a.get() > b.get(); }
  friend bool operator<=(const OffPtr& a, const OffPtr& b) noexcept { return a.get() <= b.get(); } friend bool operator>=(const OffPtr& a, const OffPtr& b) noexcept { return a.get() >= b.get(); }
};
inline void* raw_alloc(usz n, usz tsz, u32 id) {
  point();
  if (g.nblk >= g.max_blk || n > g.alloc_limit / tsz) HX_THROW(std::bad_alloc());
  n = (usz)sx_conc(n);
  void* p = ::operator new(n * tsz);
  if (!sx_symbolic()) std::memset(p, 0xCD, n * tsz);
  CHECK(g.nblk < MAXBLK, "harness: block registry full");
  g.blk[g.nblk++] = Block{p, n, id, (u32)tsz};
  g.nalloc++;
  return p;
}
inline void raw_free(void* p, usz n, usz tsz, u32 id, bool always_eq) {
  u32 i = 0;
  while (i < g.nblk && g.blk[i].p != p) i++;
  CHECK(i < g.nblk, "deallocation of memory that the allocator did not hand out");
  CHECK(g.blk[i].n == n, "deallocation with a different element count than the allocation");
  CHECK(g.blk[i].tsz == (u32)tsz, "deallocation through an allocator of another type");
  CHECK(always_eq || g.blk[i].id == id, "deallocation through an unequal allocator");
  g.blk[i] = g.blk[--g.nblk];
  g.ndealloc++;
  ::operator delete(p);
}
#ifndef NSZ
#define NSZ unsigned short
#endif
template <class T, int P> struct Alloc0 {
  typedef T value_type;
  typedef std::conditional_t<(P & FANCY) != 0, OffPtr<T>, T*> pointer; typedef std::conditional_t<(P & NARROW) != 0, NSZ, std::size_t> size_type; typedef std::conditional_t<(P & NARROW) != 0, std::make_signed_t<NSZ>, std::ptrdiff_t> difference_type;
  typedef std::bool_constant<(P & POCCA) != 0> propagate_on_container_copy_assignment;
  typedef std::bool_constant<(P & POCMA) != 0> propagate_on_container_move_assignment;
  typedef std::bool_constant<(P & POCS) != 0> propagate_on_container_swap;
  typedef std::bool_constant<(P & ALWAYS_EQ) != 0> is_always_equal;
  template <class U> struct rebind { typedef Alloc0<U, P> other; };
  u32 id;
  Alloc0() noexcept : id(0) {}
  explicit Alloc0(u32 i) noexcept : id(i) {}
  Alloc0(const Alloc0& o) noexcept : id(o.id) {}
  template <class U> Alloc0(const Alloc0<U, P>& o) noexcept : id(o.id) {}
  Alloc0& operator=(const Alloc0& o) noexcept { id = o.id; return *this; }
  pointer allocate(usz n) { T* p = static_cast<T*>(raw_alloc(n, sizeof(T), id)); if constexpr (P & FANCY) return pointer(p, typename pointer::Raw()); else return p; }
  void deallocate(pointer p, usz n) noexcept { raw_free(std::to_address(p), n, sizeof(T), id, (P & ALWAYS_EQ) != 0); }
  template <class U, class... A> void construct(U* p, A&&... a) requires((P & HOOK) != 0) {
    struct R { bool o; ~R() { g.in_alloc = o; } } r{g.in_alloc};
    g.in_alloc = true;
    ::new ((void*)p) U(std::forward<A>(a)...);
  }
  template <class U> void destroy(U* p) requires((P & HOOK) != 0) {
    struct R { bool o; ~R() { g.in_destroy = o; } } r{g.in_destroy};
    g.in_destroy = true;
    p->~U();
  }
  usz max_size() const noexcept requires((P & MAXN) != 0) { return g.maxn; }
  Alloc0 select_on_container_copy_construction() const { if (P & SELECT) return Alloc0(id + 100); return *this; }
  template <class U> friend bool operator==(const Alloc0& a, const Alloc0<U, P>& b) noexcept { return (P & ALWAYS_EQ) || a.id == b.id; }
  template <class U> friend bool operator!=(const Alloc0& a, const Alloc0<U, P>& b) noexcept { return !(a == b); }
};

template <class T, int P> using Alloc = Alloc0<T, P | XA>;

// observations, compared between engine and native runs of the same path
inline void obs_mon() { sx_obs(g.made); sx_obs(g.copies); sx_obs(g.moves); sx_obs(g.cassigns); sx_obs(g.massigns); sx_obs(g.dtors); sx_obs(g.nalloc); sx_obs(g.ndealloc); sx_obs(g.cmps); sx_obs(g.ops); }
// All tracked resources are back.
inline void all_returned() {
  CHECK(g.live == 0, "number of destroyed elements differs from number of constructed elements");
  CHECK(g.nblk == 0, "allocated storage was not deallocated");
}

#ifdef COUNT_NEW
inline void heap_start() { news0 = news; }
inline void heap_check() { CHECK(news - news0 == g.nalloc, "memory was obtained behind the allocator's back"); }
#endif
// ---------------------------------------------------------------- iterator wrappers
template <class T, class Cat> struct It {
  typedef Cat iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
  const T* p = nullptr;
  u32* pass = nullptr; u32 my = 0;    // input iterators: position shared by all copies
  It() {}
  It(const T* q) : p(q) {}
  It(const T* q, u32* s) : p(q), pass(s), my(s ? *s : 0) {}
  void fresh() const { if (std::is_same<Cat, std::input_iterator_tag>::value && pass) CHECK(my == *pass, "input range read more than once"); }
  reference operator*() const { fresh(); return *p; }
  pointer operator->() const { fresh(); return p; }
  template <class X> void operator,(X&&) const { CHECK(false, "overloaded comma operator used"); }
  It& operator++() { fresh(); ++p; if (pass) my = ++*pass; return *this; }
  It operator++(int) { It t = *this; ++*this; return t; }
  It& operator--() requires(std::is_base_of<std::bidirectional_iterator_tag, Cat>::value) { --p; return *this; }
  It operator--(int) requires(std::is_base_of<std::bidirectional_iterator_tag, Cat>::value) { It t = *this; --p; return t; }
  friend bool operator==(const It& a, const It& b) { return a.p == b.p; }
  friend bool operator!=(const It& a, const It& b) { return a.p != b.p; }
};
// range of symbolic length: element i has value i+1
template <class T> struct CountIt {
  typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef T reference;
  std::ptrdiff_t i = 0;
  T operator*() const { return T(u32(i + 1)); }
  T operator[](difference_type d) const { return T(u32(i + d + 1)); }
  CountIt& operator++() { ++i; return *this; } CountIt operator++(int) { auto t = *this; ++i; return t; }
  CountIt& operator--() { --i; return *this; } CountIt operator--(int) { auto t = *this; --i; return t; }
  CountIt& operator+=(difference_type d) { i += d; return *this; } CountIt& operator-=(difference_type d) { i -= d; return *this; }
  friend CountIt operator+(CountIt a, difference_type d) { a.i += d; return a; } friend CountIt operator+(difference_type d, CountIt a) { a.i += d; return a; }
  friend CountIt operator-(CountIt a, difference_type d) { a.i -= d; return a; } friend difference_type operator-(CountIt a, CountIt b) { return a.i - b.i; }
  friend bool operator==(CountIt a, CountIt b) { return a.i == b.i; } friend bool operator!=(CountIt a, CountIt b) { return a.i != b.i; }
  friend bool operator<(CountIt a, CountIt b) { return a.i < b.i; } friend bool operator>(CountIt a, CountIt b) { return a.i > b.i; }
  friend bool operator<=(CountIt a, CountIt b) { return a.i <= b.i; } friend bool operator>=(CountIt a, CountIt b) { return a.i >= b.i; }
};
template <class T> using InIt = It<T, std::input_iterator_tag>;
template <class T> using FwIt = It<T, std::forward_iterator_tag>;
template <class T> using BiIt = It<T, std::bidirectional_iterator_tag>;

// ---------------------------------------------------------------- abstract sequence
const u32 MCAP = 24;
struct Seq {
  u32 n = 0; u32 a[MCAP];
  void ins(u32 p, u32 k, const u32* x) {
    for (u32 i = n; i > p; i--) a[i + k - 1] = a[i - 1];
    for (u32 i = 0; i < k; i++) a[p + i] = x[i];
    n += k;
  }
  void ins1(u32 p, u32 x) { ins(p, 1, &x); }
  void fill(u32 p, u32 k, u32 x) { u32 t[MCAP]; for (u32 i = 0; i < k; i++) t[i] = x; ins(p, k, t); }
  void del(u32 p, u32 k) { for (u32 i = p + k; i < n; i++) a[i - k] = a[i]; n -= k; }
  void set(u32 k, const u32* x) { n = k; for (u32 i = 0; i < k; i++) a[i] = x[i]; }
  void push(u32 x) { a[n++] = x; }
};
} // namespace hx
