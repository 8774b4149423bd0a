// symx: path-wise symbolic execution of LLVM IR with an SMT back end.
#include "program.h"
#include "solver.h"
#include <algorithm>
#include <bitset>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <unistd.h>

static Program P;

// ---------------------------------------------------------------- memory
enum class OK_ : uint8_t { Heap, Stack, Global };
struct Obj {
  uint32_t refs = 1;
  OK_ kind = OK_::Heap;
  bool freed = false, constant = false;
  uint8_t how = 0;               // 1 malloc, 2 new, 3 new[], 4 exception
  uint64_t base = 0, size = 0;
  std::vector<uint8_t> bytes;
  std::vector<E> sym;            // empty, or one entry per byte (nullptr: concrete)
  Obj* clone() const { Obj* o = new Obj(*this); o->refs = 1; return o; }
};
static inline void decObj(Obj* o) { if (o && --o->refs == 0) delete o; }
const unsigned CH = 32;
struct Chunk {
  uint32_t refs = 1;
  Obj* o[CH] = {};
  ~Chunk() { for (auto* x : o) decObj(x); }
  Chunk* clone() const { Chunk* c = new Chunk; for (unsigned i = 0; i < CH; i++) { c->o[i] = o[i]; if (o[i]) o[i]->refs++; } return c; }
};
struct Table {
  std::vector<Chunk*> ch;
  size_t n = 0;
  Table() {}
  Table(const Table& t) : ch(t.ch), n(t.n) { for (auto* c : ch) c->refs++; }
  Table& operator=(const Table&) = delete;
  ~Table() { for (auto* c : ch) if (--c->refs == 0) delete c; }
  Obj* get(size_t i) const { return i < n ? ch[i / CH]->o[i % CH] : nullptr; }
  Chunk* own(size_t k) { Chunk*& c = ch[k]; if (c->refs > 1) { c->refs--; c = c->clone(); } return c; }
  Obj* mut(size_t i) {
    Chunk* c = own(i / CH);
    Obj*& o = c->o[i % CH];
    if (o->refs > 1) { o->refs--; o = o->clone(); }
    return o;
  }
  void push(Obj* o) {
    if (n / CH == ch.size()) ch.push_back(new Chunk);
    Chunk* c = own(n / CH);
    c->o[n % CH] = o; n++;
  }
  void trunc(size_t m) {
    while (n > m) { n--; Chunk* c = own(n / CH); decObj(c->o[n % CH]); c->o[n % CH] = nullptr; }
    while (ch.size() > (n + CH - 1) / CH) { Chunk* c = ch.back(); ch.pop_back(); if (--c->refs == 0) delete c; }
  }
};

// ---------------------------------------------------------------- state
struct Frame {
  uint32_t refs = 1;
  const Function* fn = nullptr;
  uint32_t bb = 0, ip = 0;
  size_t stackMark = 0;
  std::vector<Val> regs;
};
struct SymVar { std::string name; uint8_t w; uint64_t lo; };
struct Exc { uint64_t addr, ti, dtor; int handlers; };
struct Obsv { E e; uint64_t c; };

struct State {
  std::vector<Frame*> frames;
  Table heap, stack, globals;
  std::vector<E> pc;
  Model model;
  std::vector<SymVar> vars; std::vector<uint8_t> widths;
  std::vector<Exc> excs;         // in flight or caught
  std::vector<uint64_t> caught;  // stack of caught exceptions
  std::vector<Obsv> obs;
  uint64_t steps = 0;
  std::bitset<256> reach;        // witnesses passed
  int expectAbort = 0;
  uint32_t forks = 0;
  State() {}
  State(const State& s) : frames(s.frames), heap(s.heap), stack(s.stack), globals(s.globals), pc(s.pc), model(s.model),
    vars(s.vars), widths(s.widths), excs(s.excs), caught(s.caught), obs(s.obs), steps(s.steps), reach(s.reach), expectAbort(s.expectAbort), forks(s.forks) {
    for (auto* f : frames) f->refs++;
  }
  ~State() { for (auto* f : frames) if (--f->refs == 0) delete f; }
  Frame* top() {
    Frame*& f = frames.back();
    if (f->refs > 1) { f->refs--; f = new Frame(*f); f->refs = 1; }
    return f;
  }
  void popFrame() {
    Frame* f = frames.back();
    stack.trunc(f->stackMark);
    frames.pop_back();
    if (--f->refs == 0) delete f;
  }
};

// ---------------------------------------------------------------- globals of the run
static std::vector<State*> work;
static std::vector<std::string> reachNames;
static std::map<std::string, uint64_t> reachCount;
static uint64_t nPaths = 0, nSteps = 0, nForks = 0, nPruned = 0, nAborted = 0, nChecks = 0, nSymChecks = 0;
static uint64_t maxSteps = 4000000;
static double deadline = 1e18;
static bool incomplete = false;
static std::string incompleteWhy, engineError;
static std::vector<std::string> knownSubs;
static uint64_t violPaths = 0, maxViolPaths = 12;
static unsigned maxTests = 0;
static std::string entryName;
struct Shard { std::string name; uint64_t lo, hi; };
static std::vector<Shard> shards;   // --shard NAME=LO:HI narrows the range of a named input
struct Viol { std::string kind, msg, where, harnessWhere; std::vector<std::pair<std::string, uint64_t>> inputs; uint64_t count = 1; bool known = false; };
static std::vector<Viol> viols;
struct TestVec { std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<uint64_t> obs; };
static std::vector<TestVec> tests;
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double tStart;

struct PathEnd {};   // current path is over
static State* S;     // current state

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::vector<std::pair<std::string, uint64_t>> inputsOf(const State& s, const Model& m) {
  std::vector<std::pair<std::string, uint64_t>> v;
  for (size_t i = 0; i < s.vars.size(); i++)
    v.push_back({s.vars[i].name, ((i < m.v.size() ? m.v[i] : 0) & maskw(s.vars[i].w)) + s.vars[i].lo});
  return v;
}
static std::string locStr(const Loc& l) {
  return l.file.empty() ? "?" : l.file.substr(l.file.rfind('/') + 1) + ":" + std::to_string(l.line);
}
static void report(const std::string& kind, const std::string& msg, const Model& m) {
  std::string where, hw;
  for (size_t i = S->frames.size(); i-- > 0;) {
    Frame* f = S->frames[i];
    if (f->bb >= f->fn->blocks.size() || f->ip >= f->fn->blocks[f->bb].insts.size()) continue;
    const Loc& l = P.locs[f->fn->blocks[f->bb].insts[f->ip].loc];
    if (l.file.empty()) continue;
    bool repo = l.file.find("include/sfl/") != std::string::npos;
    if (repo && where.empty()) where = locStr(l);
    if (!repo && hw.empty() && l.file.find("/usr/") == std::string::npos) hw = locStr(l);
  }
  bool known = false;
  std::string full = entryName + "|" + kind + "|" + msg + "|" + where;
  for (auto& k : knownSubs) if (full.find(k) != std::string::npos) known = true;
  if (!known) violPaths++;
  for (auto& v : viols) if (v.kind == kind && v.msg == msg && v.where == where) { v.count++; return; }
  Viol v; v.kind = kind; v.msg = msg; v.where = where; v.harnessWhere = hw; v.inputs = inputsOf(*S, m); v.known = known;
  viols.push_back(v);
}
[[noreturn]] static void violation(const std::string& kind, const std::string& msg) {
  report(kind, msg, S->model);
  throw PathEnd();
}
static void markIncomplete(const std::string& w) { if (!incomplete) incompleteWhy = w; incomplete = true; }
// Something the engine does not model: this path stays unexplored and the run is incomplete.
static std::map<std::string, uint64_t> unsupported;
[[noreturn]] static void fatal(const std::string& m) {
  unsupported[m]++; markIncomplete("unsupported: " + m);
  throw PathEnd();
}

// ---------------------------------------------------------------- constraints
static void addPC(State* s, E c) { if (!isC(c)) s->pc.push_back(c); }
static Sat query(const State* s, E c, Model* m) {
  Sat r = solve(s->pc, c, s->widths, m);
  if (r == Sat::Unknown) markIncomplete("solver returned unknown");
  return r;
}
// Decide a (possibly symbolic) 1-bit condition; forks when both are possible.
// otherwise(st) is applied to the state that takes the opposite side.
template <class F> static bool decide(E c, F otherwise) {
  if (isC(c)) return c->c;
  if (c->undef) {
    E z = substUndef(c, false), o = substUndef(c, true);
    if (z != o) {
      E diff = mkBin(K::Xor, z, o);
      Model m = S->model;
      if ((!isC(diff) && query(S, diff, &m) == Sat::Yes) || (isC(diff) && diff->c)) {
        report("uninit", "branch depends on uninitialised memory", m);
        throw PathEnd();
      }
    }
    c = z;
    if (isC(c)) return c->c;
  }
  bool v = evalExpr(c, S->model);
  E other = v ? mkNot(c) : c;
  Model m = S->model;
  Sat r = query(S, other, &m);
  if (r == Sat::Yes) {
    nForks++;
    State* n = new State(*S);
    n->model = m; n->forks++;
    addPC(n, other);
    otherwise(n, !v);
    work.push_back(n);
    addPC(S, v ? c : mkNot(c));
  } else if (r == Sat::Unknown) {
    addPC(S, v ? c : mkNot(c));
  }
  return v;
}
// Re-executing decision: the other state redoes the current instruction.
static bool decideRe(E c) { return decide(c, [](State*, bool) {}); }
static uint64_t concretize(Val v, unsigned w) {
  if (!v.e) return v.c;
  E e = v.e;
  if (e->undef) {
    E z = substUndef(e, false), o = substUndef(e, true);
    if (z != o) violation("uninit", "address, length or switch depends on uninitialised memory");
    e = z;
  }
  if (isC(e)) return e->c;
  if (S->forks > 200000) { markIncomplete("too many forks on one path"); throw PathEnd(); }
  uint64_t c = evalExpr(e, S->model);
  E eq = mkBin(K::Eq, e, mkConst(c, w));
  Model m = S->model;
  Sat r = query(S, mkNot(eq), &m);
  if (r == Sat::Yes) {
    nForks++;
    State* n = new State(*S);
    n->model = m; n->forks++;
    addPC(n, mkNot(eq));
    work.push_back(n);
    addPC(S, eq);
  } else addPC(S, eq);
  return c;
}

// ---------------------------------------------------------------- memory ops
static Table* tableOf(uint64_t a, size_t& idx) {
  if (a >= STACK_BASE && a < STACK_BASE + (1ull << 44)) { idx = (a - STACK_BASE) >> SLOT_BITS; return &S->stack; }
  if (a >= OBJ_BASE && a < STACK_BASE) { idx = (a - OBJ_BASE) >> SLOT_BITS; return &S->heap; }
  if (a >= GLOB_BASE && a < OBJ_BASE) { idx = (a - GLOB_BASE) >> SLOT_BITS; return &S->globals; }
  return nullptr;
}
static Obj* findObj(uint64_t a, Table*& t, size_t& idx) {
  t = tableOf(a, idx);
  if (!t || idx >= t->n) return nullptr;
  Obj* o = t->get(idx);
  if (o && o->size == ~0ull) { idx = (size_t)o->base; o = t->get(idx); } // tail slot of a large object
  return o;
}
static std::string addrStr(uint64_t a) { char b[40]; snprintf(b, 40, "0x%llx", (unsigned long long)a); return b; }
static Obj* access(uint64_t a, uint64_t n, bool write, Table*& t, size_t& idx) {
  Obj* o = findObj(a, t, idx);
  if (!o) {
    if (a < 4096) violation("memory", write ? "null pointer write" : "null pointer read");
    if (a >= FN_BASE && a < GLOB_BASE) violation("memory", "data access to function address");
    violation("memory", write ? "wild pointer write" : "wild pointer read");
  }
  if (o->freed) violation("memory", write ? "use after free (write)" : "use after free (read)");
  if (a < o->base || a + n > o->base + o->size || a + n < a)
    violation("memory", std::string(o->kind == OK_::Heap ? "heap" : o->kind == OK_::Stack ? "stack" : "global") + (write ? " out-of-bounds write" : " out-of-bounds read"));
  if (write && o->constant) violation("memory", "write to constant object");
  return o;
}
static uint64_t resolve(Val p, uint64_t n) {
  if (!p.e) return p.c;
  E e = p.e;
  if (e->undef) violation("uninit", "address depends on uninitialised memory");
  // Split off "outside the object the current model points to" first, so an
  // out-of-bounds access is found at once and not by enumeration.
  uint64_t c = evalExpr(e, S->model);
  Table* t; size_t idx;
  Obj* o = findObj(c, t, idx);
  if (o && !o->freed && c >= o->base && c + n <= o->base + o->size) {
    E in = mkBin(K::And, mkBin(K::Ule, mkConst(o->base, 64), e), mkBin(K::Ule, e, mkConst(o->base + o->size - n, 64)));
    if (!isC(in)) decideRe(in);
  } else return c;
  return concretize(p, 64);
}
static uint64_t allocObj(Table& t, uint64_t tb, OK_ k, uint64_t size, bool undef, uint8_t how) {
  Obj* o = new Obj;
  o->kind = k; o->size = size; o->how = how;
  o->base = tb + ((uint64_t)t.n << SLOT_BITS) + SLOT_PAD;
  o->bytes.assign(size, 0);
  static E u8 = mkUndef(8);
  if (undef) o->sym.assign(size, u8);
  uint64_t slots = (SLOT_PAD * 2 + size + (1ull << SLOT_BITS) - 1) >> SLOT_BITS;
  size_t first = t.n;
  t.push(o);
  for (uint64_t i = 1; i < slots; i++) { Obj* r = new Obj; r->base = first; r->size = ~0ull; t.push(r); }
  return o->base;
}
static Val loadScalar(uint64_t a, unsigned w) {
  unsigned n = (w + 7) / 8;
  Table* t; size_t idx;
  Obj* o = access(a, n, false, t, idx);
  uint64_t off = a - o->base;
  bool anySym = false;
  if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { anySym = true; break; }
  if (!anySym) {
    uint64_t v = 0; memcpy(&v, &o->bytes[off], n);
    return Val{nullptr, v & maskw(w)};
  }
  E acc = nullptr;
  for (int i = (int)n - 1; i >= 0; i--) {
    E b = o->sym[off + i] ? o->sym[off + i] : mkConst(o->bytes[off + i], 8);
    acc = acc ? mkConcat(acc, b) : b;
  }
  if (w < n * 8) acc = mkExtract(acc, 0, w);
  if (isC(acc)) return Val{nullptr, acc->c};
  return Val{acc, 0};
}
static void storeScalar(uint64_t a, Val v, unsigned w) {
  unsigned n = (w + 7) / 8;
  Table* t; size_t idx;
  access(a, n, true, t, idx);
  Obj* o = t->mut(idx);
  uint64_t off = a - o->base;
  if (!v.e) {
    memcpy(&o->bytes[off], &v.c, n);
    if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
    return;
  }
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  E e = v.e;
  if (w < n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    E b = mkExtract(e, i * 8, 8);
    if (isC(b)) { o->bytes[off + i] = (uint8_t)b->c; o->sym[off + i] = nullptr; }
    else o->sym[off + i] = b;
  }
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n, bool allowOverlap) {
  if (!n) return;
  Table *t1, *t2; size_t i1, i2;
  Obj* so = access(s, n, false, t1, i1);
  access(d, n, true, t2, i2);
  if (!allowOverlap && d != s && d < s + n && s < d + n) violation("memory", "memcpy on overlapping ranges");
  std::vector<uint8_t> b(so->bytes.begin() + (s - so->base), so->bytes.begin() + (s - so->base) + n);
  std::vector<E> y;
  if (!so->sym.empty()) y.assign(so->sym.begin() + (s - so->base), so->sym.begin() + (s - so->base) + n);
  Obj* o = t2->mut(i2);
  uint64_t off = d - o->base;
  memcpy(&o->bytes[off], b.data(), n);
  if (!y.empty()) {
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    std::copy(y.begin(), y.end(), o->sym.begin() + off);
  } else if (!o->sym.empty()) std::fill(o->sym.begin() + off, o->sym.begin() + off + n, nullptr);
}
static std::string readStr(uint64_t a) {
  std::string s;
  for (int i = 0; i < 400; i++) { Val v = loadScalar(a + i, 8); if (v.e || !v.c) break; s += (char)v.c; }
  return s;
}

// ---------------------------------------------------------------- values
static inline Val get(const Frame* f, const Opnd& o, unsigned k = 0) { return o.reg ? f->regs[o.idx + k] : P.pool[o.idx + k]; }
static inline E toE(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { return isC(e) ? Val{nullptr, e->c} : Val{e, 0}; }
static Val binop(K k, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) {
    if ((k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) && !b.c) violation("arith", "division by zero");
    bool ok; return Val{nullptr, foldBin(k, a.c, b.c, w, ok)};
  }
  E x = toE(a, w), y = toE(b, w);
  if ((k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem)) {
    E z = mkBin(K::Eq, y, mkConst(0, w));
    if (decideRe(z)) violation("arith", "division by zero");
  }
  return fromE(mkBin(k, x, y));
}
static Val icmp(Pred p, Val a, Val b, unsigned w) {
  K k; bool neg = false, swp = false;
  switch (p) {
    case Pred::EQ: k = K::Eq; break; case Pred::NE: k = K::Eq; neg = true; break;
    case Pred::ULT: k = K::Ult; break; case Pred::ULE: k = K::Ule; break;
    case Pred::UGT: k = K::Ult; swp = true; break; case Pred::UGE: k = K::Ule; swp = true; break;
    case Pred::SLT: k = K::Slt; break; case Pred::SLE: k = K::Sle; break;
    case Pred::SGT: k = K::Slt; swp = true; break; default: k = K::Sle; swp = true; break;
  }
  if (swp) std::swap(a, b);
  if (!a.e && !b.e) { bool ok; uint64_t v = foldBin(k, a.c, b.c, w, ok); return Val{nullptr, neg ? !v : v}; }
  E e = mkBin(k, toE(a, w), toE(b, w));
  if (neg) e = mkNot(e);
  return fromE(e);
}

// ---------------------------------------------------------------- control
static void gotoBlock(State* s, uint32_t bb) {
  Frame* f = s->top();
  uint32_t prev = f->bb;
  const Block& B = f->fn->blocks[bb];
  if (!B.phis.empty()) {
    Val tmp[64]; std::vector<Val> big; size_t tot = 0;
    for (auto& p : B.phis) tot += p.n;
    Val* buf = tmp;
    if (tot > 64) { big.resize(tot); buf = big.data(); }
    size_t k = 0;
    for (auto& p : B.phis) {
      const Opnd* o = nullptr;
      for (auto& in : p.in) if (in.first == prev) { o = &in.second; break; }
      for (unsigned i = 0; i < p.n; i++) buf[k++] = get(f, *o, i);
    }
    k = 0;
    for (auto& p : B.phis) for (unsigned i = 0; i < p.n; i++) f->regs[p.dest + i] = buf[k++];
  }
  f->bb = bb; f->ip = 0;
}
static void pushFrame(int fi, const Val* args, unsigned n) {
  if (S->frames.size() > 3000) violation("recursion", "call depth exceeds 3000");
  Function& F = P.fns[fi];
  F.entered = true;
  Frame* f = new Frame;
  f->fn = &F;
  f->regs.assign(F.nregs, Val{nullptr, 0});
  f->stackMark = S->stack.n;
  unsigned k = 0;
  for (size_t i = 0; i < F.argReg.size(); i++)
    for (unsigned j = 0; j < F.argN[i] && k < n; j++, k++) f->regs[F.argReg[i] + j] = args[k];
  S->frames.push_back(f);
  for (size_t i = 0; i < F.byval.size(); i++) if (F.byval[i]) {
    uint64_t a = allocObj(S->stack, STACK_BASE, OK_::Stack, F.byval[i], true, 0);
    copyMem(a, f->regs[F.argReg[i]].c, F.byval[i], false);
    f->regs[F.argReg[i]] = Val{nullptr, a};
  }
}
static void finishPath(const char* how) {
  if (!strcmp(how, "return")) {
    uint64_t leaked = 0, bytes = 0;
    for (size_t i = 0; i < S->heap.n; i++) { Obj* o = S->heap.get(i); if (o && o->size != ~0ull && !o->freed && o->how != 4 && o->how != 0) { leaked++; bytes += o->size; } }
    if (leaked) violation("leak", "heap memory still allocated at the end");
  }
  nPaths++;
  for (size_t i = 0; i < reachNames.size(); i++) if (S->reach[i]) reachCount[reachNames[i]]++;
  if (maxTests && S->vars.size()) {
    static uint64_t seen = 0; seen++;
    TestVec tv; 
    auto mk = [&]() { tv.inputs = inputsOf(*S, S->model); for (auto& o : S->obs) tv.obs.push_back(o.e ? evalExpr(o.e, S->model) : o.c); };
    if (tests.size() < maxTests) { mk(); tests.push_back(tv); }
    else { // deterministic reservoir
      uint64_t h = seen * 0x9e3779b97f4a7c15ull; h ^= h >> 31; 
      if (h % seen < maxTests) { mk(); tests[(h >> 20) % maxTests] = tv; }
    }
  }
  throw PathEnd();
}
static void doReturn(const Val* rv, unsigned n) {
  S->popFrame();
  if (S->frames.empty()) finishPath("return");
  Frame* f = S->top();
  const Inst& c = f->fn->blocks[f->bb].insts[f->ip];
  for (unsigned i = 0; i < c.nres && i < n; i++) f->regs[c.dest + i] = rv[i];
  if (c.op == Op::Invoke) gotoBlock(S, c.bb[0]); else f->ip++;
}
static uint32_t selectorOf(uint64_t ti) { return ti ? (uint32_t)((ti - GLOB_BASE) >> SLOT_BITS) + 1 : 0x3fffffff; }
static Exc* excOf(uint64_t a) { for (auto& e : S->excs) if (e.addr == a) return &e; return nullptr; }
static void unwindFrom(uint64_t exc) {
  // The top frame's current instruction is the call that threw.
  for (;;) {
    if (S->frames.empty()) {
      std::string n = "?"; if (Exc* x = excOf(exc)) { auto it = P.nameOfAddr.find(x->ti); if (it != P.nameOfAddr.end()) n = it->second; }
      violation("uncaught", "uncaught exception " + n);
    }
    Frame* f = S->top();
    const Inst& c = f->fn->blocks[f->bb].insts[f->ip];
    if (c.op == Op::Invoke) {
      const Block& B = f->fn->blocks[c.bb[1]];
      const Inst& lp = B.insts[0];
      if (lp.op != Op::Landingpad) fatal("unwind destination without landingpad");
      Exc* x = excOf(exc);
      bool land = false; uint32_t sel = 0;
      for (auto& cl : lp.clauses) {
        if (!cl.isCatch) { land = true; sel = (uint32_t)-1; break; }
        if (cl.ti == 0 || (x && cl.ti == x->ti)) { land = true; sel = selectorOf(cl.ti); break; }
      }
      if (!land && lp.cleanup) { land = true; sel = 0; }
      if (land) {
        gotoBlock(S, c.bb[1]);
        Frame* g = S->top();
        const Inst& l2 = g->fn->blocks[g->bb].insts[0];
        g->regs[l2.dest] = Val{nullptr, exc};
        g->regs[l2.dest + 1] = Val{nullptr, sel};
        g->ip = 1;
        return;
      }
    }
    S->popFrame();
  }
}
static void throwNew(uint64_t obj, uint64_t ti, uint64_t dtor) {
  S->excs.push_back(Exc{obj, ti, dtor, 0});
  unwindFrom(obj);
}
static void throwStd(const char* tiName) {
  uint64_t a = allocObj(S->heap, OBJ_BASE, OK_::Heap, 16, false, 4);
  auto it = P.globalAddr.find(tiName);
  throwNew(a, it == P.globalAddr.end() ? 0 : it->second, 0);
}
static void freeObj(uint64_t a, uint8_t how) {
  if (!a) return;
  Table* t; size_t idx;
  Obj* o = findObj(a, t, idx);
  if (!o || o->kind != OK_::Heap || o->base != a) violation("memory", "free of a pointer that was not allocated");
  if (o->freed) violation("memory", "double free");
  if (o->how != how) violation("memory", "mismatched allocation and deallocation functions");
  Obj* m = t->mut(idx);
  m->freed = true;
  std::vector<uint8_t>().swap(m->bytes); std::vector<E>().swap(m->sym);
}

// ---------------------------------------------------------------- external functions
enum class X : uint16_t {
  None, Nop, Memcpy, Memmove, Memset, Malloc, New, NewArr, Free, Delete, DeleteArr, Abort, AssertFail, Terminate,
  AllocExc, FreeExc, Throw, BeginCatch, EndCatch, Rethrow, GetExcPtr, StdExcCtor, StdExcDtor, ThrowBadAlloc, ThrowBadNewLen, ThrowLength, ThrowOOR, ThrowLogic,
  SxSym, SxRange, SxAssume, SxCheck, SxReach, SxConc, SxObs, SxExpectAbort, SxSymbolic, SxStop, SxFail, SxIsSym, SxLive, SxDump,
  Umax, Umin, Smax, Smin, Abs, UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, UaddSat, UsubSat, Ctlz, Cttz, Ctpop, Fshl, Fshr, Bswap, EhTypeid, Expect, ObjSize, Launder, IsConstant, StackSave, StackRestore, Trap, Unreach,
  Exit, Out, Calloc, Strlen, Memcmp, AtExit, InvStart, What, Ptrmask, UncaughtExc, GuardAcq
};
static std::vector<X> extKind;
static std::vector<uint8_t> extArg;
static void classify() {
  extKind.assign(P.exts.size(), X::None); extArg.assign(P.exts.size(), 0);
  auto pre = [](const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; };
  for (size_t i = 0; i < P.exts.size(); i++) {
    const std::string& n = P.exts[i]; X k = X::None;
    if (pre(n, "llvm.memcpy")) k = X::Memcpy;
    else if (pre(n, "llvm.memmove") || n == "memmove") k = X::Memmove;
    else if (n == "memcpy") k = X::Memcpy;
    else if (pre(n, "llvm.memset") || n == "memset") k = X::Memset;
    else if (n == "malloc") k = X::Malloc;
    else if (n == "free") k = X::Free;
    else if (n == "calloc") k = X::Calloc;
    else if (n == "exit" || n == "_exit" || n == "_Exit" || n == "quick_exit") k = X::Exit;
    else if (n == "printf" || n == "fprintf" || n == "puts" || n == "fputs" || n == "putchar" || n == "fputc" || n == "fwrite" || n == "fflush" || n == "perror") k = X::Out;
    else if (pre(n, "_Znwm")) k = X::New;
    else if (pre(n, "_Znam")) k = X::NewArr;
    else if (pre(n, "_ZdlPv")) k = X::Delete;
    else if (pre(n, "_ZdaPv")) k = X::DeleteArr;
    else if (n == "abort") k = X::Abort;
    else if (n == "__assert_fail") k = X::AssertFail;
    else if (n == "_ZSt9terminatev") k = X::Terminate;
    else if (n == "__cxa_allocate_exception") k = X::AllocExc;
    else if (n == "__cxa_free_exception") k = X::FreeExc;
    else if (n == "__cxa_throw") k = X::Throw;
    else if (n == "__cxa_begin_catch") k = X::BeginCatch;
    else if (n == "__cxa_end_catch") k = X::EndCatch;
    else if (n == "__cxa_rethrow") k = X::Rethrow;
    else if (n == "__cxa_get_exception_ptr") k = X::GetExcPtr;
    else if (pre(n, "_ZNSt12length_errorC") || pre(n, "_ZNSt12out_of_rangeC") || pre(n, "_ZNSt11logic_errorC") || pre(n, "_ZNSt13runtime_errorC")) k = X::StdExcCtor;
    else if (pre(n, "_ZNSt12length_errorD") || pre(n, "_ZNSt12out_of_rangeD") || pre(n, "_ZNSt11logic_errorD") || pre(n, "_ZNSt9exceptionD") || pre(n, "_ZNSt9bad_allocD") || pre(n, "_ZNSt13runtime_errorD")) k = X::StdExcDtor;
    else if (n == "_ZSt17__throw_bad_allocv") k = X::ThrowBadAlloc;
    else if (n == "_ZSt28__throw_bad_array_new_lengthv") k = X::ThrowBadNewLen;
    else if (n == "_ZSt20__throw_length_errorPKc") k = X::ThrowLength;
    else if (n == "_ZSt20__throw_out_of_rangePKc" || n == "_ZSt24__throw_out_of_range_fmtPKcz") k = X::ThrowOOR;
    else if (n == "_ZSt19__throw_logic_errorPKc") k = X::ThrowLogic;
    else if (n == "sx_u64") { k = X::SxSym; extArg[i] = 64; }
    else if (n == "sx_u32") { k = X::SxSym; extArg[i] = 32; }
    else if (n == "sx_u16") { k = X::SxSym; extArg[i] = 16; }
    else if (n == "sx_u8") { k = X::SxSym; extArg[i] = 8; }
    else if (n == "sx_range") k = X::SxRange;
    else if (n == "sx_assume") k = X::SxAssume;
    else if (n == "sx_check") k = X::SxCheck;
    else if (n == "sx_fail") k = X::SxFail;
    else if (n == "sx_reach") k = X::SxReach;
    else if (n == "sx_conc") k = X::SxConc;
    else if (n == "sx_obs") k = X::SxObs;
    else if (n == "sx_expect_abort") k = X::SxExpectAbort;
    else if (n == "sx_symbolic") k = X::SxSymbolic;
    else if (n == "sx_is_symbolic") k = X::SxIsSym;
    else if (n == "sx_stop") k = X::SxStop;
    else if (n == "sx_dump") k = X::SxDump;
    else if (pre(n, "llvm.umax")) k = X::Umax;
    else if (pre(n, "llvm.umin")) k = X::Umin;
    else if (pre(n, "llvm.smax")) k = X::Smax;
    else if (pre(n, "llvm.smin")) k = X::Smin;
    else if (pre(n, "llvm.abs")) k = X::Abs;
    else if (pre(n, "llvm.uadd.with")) k = X::UaddO;
    else if (pre(n, "llvm.usub.with")) k = X::UsubO;
    else if (pre(n, "llvm.umul.with")) k = X::UmulO;
    else if (pre(n, "llvm.sadd.with")) k = X::SaddO;
    else if (pre(n, "llvm.ssub.with")) k = X::SsubO;
    else if (pre(n, "llvm.smul.with")) k = X::SmulO;
    else if (pre(n, "llvm.uadd.sat")) k = X::UaddSat;
    else if (pre(n, "llvm.usub.sat")) k = X::UsubSat;
    else if (pre(n, "llvm.ctlz")) k = X::Ctlz;
    else if (pre(n, "llvm.cttz")) k = X::Cttz;
    else if (pre(n, "llvm.ctpop")) k = X::Ctpop;
    else if (pre(n, "llvm.fshl")) k = X::Fshl;
    else if (pre(n, "llvm.fshr")) k = X::Fshr;
    else if (pre(n, "llvm.bswap")) k = X::Bswap;
    else if (pre(n, "llvm.eh.typeid.for")) k = X::EhTypeid;
    else if (pre(n, "llvm.expect")) k = X::Expect;
    else if (pre(n, "llvm.objectsize")) k = X::ObjSize;
    else if (pre(n, "llvm.launder") || pre(n, "llvm.strip.inv") || pre(n, "llvm.ptr.annotation") || pre(n, "llvm.threadlocal.address")) k = X::Launder;
    else if (pre(n, "llvm.is.constant")) k = X::IsConstant;
    else if (pre(n, "llvm.stacksave")) k = X::StackSave;
    else if (pre(n, "llvm.stackrestore")) k = X::StackRestore;
    else if (pre(n, "llvm.trap") || pre(n, "llvm.ubsantrap")) k = X::Trap;
    else if (pre(n, "llvm.invariant.start")) k = X::InvStart;
    else if (n == "llvm.donothing") k = X::Nop;
    else if (n == "strlen") k = X::Strlen;
    else if (n == "memcmp" || n == "bcmp") k = X::Memcmp;
    else if (n == "atexit" || n == "__cxa_atexit") k = X::AtExit;
    else if (n == "__cxa_guard_acquire") k = X::GuardAcq;
    else if (n == "__cxa_guard_release") k = X::Nop;
    else if (n == "_ZSt19uncaught_exceptionsv" || n == "_ZSt18uncaught_exceptionv") k = X::UncaughtExc;
    extKind[i] = k;
  }
}
static void next() { Frame* f = S->top(); const Inst& c = f->fn->blocks[f->bb].insts[f->ip]; if (c.op == Op::Invoke) gotoBlock(S, c.bb[0]); else f->ip++; }
static void ret1(Val v) { Frame* f = S->top(); const Inst& c = f->fn->blocks[f->bb].insts[f->ip]; if (c.nres) f->regs[c.dest] = v; next(); }
static void ret2(Val a, Val b) { Frame* f = S->top(); const Inst& c = f->fn->blocks[f->bb].insts[f->ip]; f->regs[c.dest] = a; f->regs[c.dest + 1] = b; next(); }
static Val newVar(const std::string& name, unsigned w, uint64_t lo) {
  unsigned id = (unsigned)S->vars.size();
  S->vars.push_back(SymVar{name, (uint8_t)w, lo}); S->widths.push_back((uint8_t)w);
  if (S->model.v.size() <= id) S->model.v.resize(id + 1, 0);
  S->model.v[id] = 0;
  return Val{mkVar(id, w), 0};
}
static void abortPath(const std::string& kind, const std::string& msg) {
  if (S->expectAbort) {
    nAborted++;
    for (size_t i = 0; i < reachNames.size(); i++) if (S->reach[i]) reachCount[reachNames[i]]++;
    reachCount["(assertion stopped the call)"]++;
    nPaths++;
    throw PathEnd();
  }
  violation(kind, msg);
}
static unsigned reachId(const std::string& n) {
  for (size_t i = 0; i < reachNames.size(); i++) if (reachNames[i] == n) return (unsigned)i;
  if (reachNames.size() >= 255) return 255;
  reachNames.push_back(n); return (unsigned)reachNames.size() - 1;
}
static E ext1(E e) { return e; }

static void callExt(const Inst& I) {
  Frame* f = S->top();
  X k = extKind[I.ext];
  auto A = [&](unsigned i) { return get(f, I.ops[i]); };
  auto W = [&](unsigned i) { return (unsigned)I.ops[i].w; };
  switch (k) {
    case X::Nop: case X::AtExit: ret1(Val{nullptr, 0}); return;
    case X::InvStart: ret1(Val{nullptr, 0}); return;
    case X::Memcpy: case X::Memmove: {
      uint64_t n = concretize(A(2), 64);
      uint64_t d = concretize(A(0), 64), s = concretize(A(1), 64);
      copyMem(d, s, n, k == X::Memmove);
      ret1(Val{nullptr, d}); return;
    }
    case X::Memset: {
      uint64_t n = concretize(A(2), 64), d = concretize(A(0), 64);
      Val v = A(1);
      E ve = v.e ? mkExtract(v.e, 0, 8) : nullptr;
      if (n) {
        Table* t; size_t idx; access(d, n, true, t, idx);
        Obj* o = t->mut(idx); uint64_t off = d - o->base;
        if (ve && !isC(ve)) { if (o->sym.empty()) o->sym.assign(o->size, nullptr); std::fill(o->sym.begin() + off, o->sym.begin() + off + n, ve); }
        else { memset(&o->bytes[off], (int)(ve ? ve->c : v.c), n); if (!o->sym.empty()) std::fill(o->sym.begin() + off, o->sym.begin() + off + n, nullptr); }
      }
      ret1(Val{nullptr, d}); return;
    }
    case X::Malloc: case X::New: case X::NewArr: {
      uint64_t n = concretize(A(0), 64);
      if (n > (1u << 20)) { if (k == X::Malloc) { ret1(Val{nullptr, 0}); return; } throwStd("_ZTISt9bad_alloc"); return; }
      uint64_t a = allocObj(S->heap, OBJ_BASE, OK_::Heap, n, true, k == X::Malloc ? 1 : k == X::New ? 2 : 3);
      ret1(Val{nullptr, a}); return;
    }
    case X::Free: freeObj(concretize(A(0), 64), 1); next(); return;
    case X::Delete: freeObj(concretize(A(0), 64), 2); next(); return;
    case X::DeleteArr: freeObj(concretize(A(0), 64), 3); next(); return;
    case X::Abort: abortPath("abort", "abort() called"); return;
    case X::AssertFail: abortPath("assert", "assertion failed: " + readStr(A(0).c)); return;
    case X::Exit: violation("exit", "the program is ended by " + P.exts[I.ext]);
    case X::Out: ret1(Val{nullptr, 0}); return;
    case X::Calloc: {
      uint64_t n = concretize(A(0), 64) * concretize(A(1), 64);
      if (n > (1u << 20)) { ret1(Val{nullptr, 0}); return; }
      uint64_t a = allocObj(S->heap, OBJ_BASE, OK_::Heap, n, true, 1);
      if (n) { Table* t; size_t idx; access(a, n, true, t, idx); Obj* o = t->mut(idx); memset(&o->bytes[0], 0, n); if (!o->sym.empty()) std::fill(o->sym.begin(), o->sym.end(), nullptr); }
      ret1(Val{nullptr, a}); return;
    }
    case X::Terminate: violation("terminate", "std::terminate called (exception escapes a noexcept function)");
    case X::Trap: violation("trap", "trap executed");
    case X::AllocExc: {
      uint64_t a = allocObj(S->heap, OBJ_BASE, OK_::Heap, concretize(A(0), 64), true, 4);
      ret1(Val{nullptr, a}); return;
    }
    case X::FreeExc: freeObj(A(0).c, 4); next(); return;
    case X::Throw: throwNew(A(0).c, A(1).c, A(2).c); return;
    case X::GetExcPtr: ret1(A(0)); return;
    case X::BeginCatch: {
      Exc* x = excOf(A(0).c);
      if (!x) fatal("begin_catch of unknown exception");
      x->handlers = x->handlers < 0 ? -x->handlers + 1 : x->handlers + 1;
      if (S->caught.empty() || S->caught.back() != x->addr) S->caught.push_back(x->addr);
      ret1(A(0)); return;
    }
    case X::EndCatch: {
      if (S->caught.empty()) { next(); return; }
      uint64_t a = S->caught.back();
      Exc* x = excOf(a);
      if (x->handlers < 0) { // rethrown
        if (++x->handlers == 0) S->caught.pop_back();
        next(); return;
      }
      if (--x->handlers == 0) {
        uint64_t dt = x->dtor;
        S->caught.pop_back();
        S->excs.erase(S->excs.begin() + (x - &S->excs[0]));
        // exception object: run destructor, then release
        auto it = P.byAddr.find(dt);
        Table* t; size_t idx; findObj(a, t, idx);
        if (it != P.byAddr.end()) {
          Val arg{nullptr, a};
          pushFrame(it->second, &arg, 1);   // its return continues after end_catch
          return;                           // (object stays: freed exceptions are not tracked further)
        }
        t->mut(idx)->freed = true;
      }
      next(); return;
    }
    case X::Rethrow: {
      if (S->caught.empty()) violation("terminate", "rethrow without a current exception");
      uint64_t a = S->caught.back();
      Exc* x = excOf(a);
      x->handlers = -x->handlers;
      unwindFrom(a);
      return;
    }
    case X::UncaughtExc: { int n = 0; for (auto& x : S->excs) if (x.handlers <= 0) n++; ret1(Val{nullptr, (uint64_t)n}); return; }
    case X::StdExcCtor: case X::StdExcDtor: next(); return;
    case X::ThrowBadAlloc: throwStd("_ZTISt9bad_alloc"); return;
    case X::ThrowBadNewLen: throwStd("_ZTISt20bad_array_new_length"); return;
    case X::ThrowLength: throwStd("_ZTISt12length_error"); return;
    case X::ThrowOOR: throwStd("_ZTISt12out_of_range"); return;
    case X::ThrowLogic: throwStd("_ZTISt11logic_error"); return;

    case X::SxSym: { Val v = newVar(readStr(A(0).c), extArg[I.ext], 0); ret1(v); return; }
    case X::SxRange: {
      uint64_t lo = concretize(A(1), 64), hi = concretize(A(2), 64);
      if (!shards.empty()) {
        std::string n = readStr(A(0).c);
        bool seen = false;   // only the first input of that name
        for (auto& v : S->vars) if (v.name == n) { seen = true; break; }
        for (auto& sh : shards) if (!seen && sh.name == n) { lo = std::max(lo, sh.lo); hi = std::min(hi, sh.hi); }
      }
      if (lo > hi) { nPruned++; throw PathEnd(); }
      if (lo == hi) { // still an input, so that replay stays aligned
        newVar(readStr(A(0).c), 1, lo);
        E z = mkBin(K::Eq, mkVar((unsigned)S->vars.size() - 1, 1), mkConst(0, 1));
        addPC(S, z);
        ret1(Val{nullptr, lo}); return;
      }
      uint64_t span = hi - lo; unsigned w = 1; while (w < 64 && (span >> w)) w++;
      Val v = newVar(readStr(A(0).c), w, lo);
      if (span != maskw(w)) addPC(S, mkBin(K::Ule, v.e, mkConst(span, w)));
      ret1(fromE(mkBin(K::Add, mkZExt(v.e, 64), mkConst(lo, 64)))); return;
    }
    case X::SxAssume: {
      Val v = A(0);
      if (!v.e) { if (!(v.c & 1)) { nPruned++; throw PathEnd(); } next(); return; }
      E c = W(0) == 1 ? v.e : mkBin(K::Eq, mkExtract(v.e, 0, 1), mkConst(1, 1));
      if (!evalExpr(c, S->model)) {
        Model m = S->model;
        if (query(S, c, &m) != Sat::Yes) { nPruned++; throw PathEnd(); }
        S->model = m;
      }
      addPC(S, c); next(); return;
    }
    case X::SxCheck: {
      Val v = A(0); nChecks++;
      if (!v.e) { if (!(v.c & 1)) violation("property", readStr(A(1).c)); next(); return; }
      nSymChecks++;
      E c = W(0) == 1 ? v.e : mkBin(K::Eq, mkExtract(v.e, 0, 1), mkConst(1, 1));
      if (c->undef) {
        E z = substUndef(c, false), o = substUndef(c, true);
        if (z != o) { Model m = S->model; if (query(S, mkBin(K::Xor, z, o), &m) == Sat::Yes) { report("uninit", "checked value depends on uninitialised memory: " + readStr(A(1).c), m); throw PathEnd(); } }
        c = z;
      }
      if (isC(c)) { if (!c->c) violation("property", readStr(A(1).c)); next(); return; }
      Model m = S->model;
      if (query(S, mkNot(c), &m) == Sat::Yes) {
        report("property", readStr(A(1).c), m);
        if (!evalExpr(c, S->model)) { Model m2 = S->model; if (query(S, c, &m2) != Sat::Yes) throw PathEnd(); S->model = m2; }
      }
      addPC(S, c); next(); return;
    }
    case X::SxFail: violation("property", readStr(A(0).c));
    case X::SxReach: { unsigned id = reachId(readStr(A(0).c)); S->reach[id] = true; next(); return; }
    case X::SxConc: { uint64_t c = concretize(A(0), W(0)); ret1(Val{nullptr, c}); return; }
    case X::SxObs: { Val v = A(0); S->obs.push_back(Obsv{v.e, v.c}); next(); return; }
    case X::SxExpectAbort: S->expectAbort = (int)A(0).c; next(); return;
    case X::SxSymbolic: ret1(Val{nullptr, 1}); return;
    case X::SxIsSym: ret1(Val{nullptr, A(0).e ? 1ull : 0ull}); return;
    case X::SxStop: nPaths++; for (size_t i = 0; i < reachNames.size(); i++) if (S->reach[i]) reachCount[reachNames[i]]++; throw PathEnd();
    case X::SxDump: fprintf(stderr, "dump %s = %s\n", readStr(A(0).c).c_str(), A(1).e ? showExpr(A(1).e).c_str() : std::to_string((long long)A(1).c).c_str()); next(); return;

    case X::Umax: case X::Umin: case X::Smax: case X::Smin: {
      unsigned w = W(0);
      Pred p = k == X::Umax ? Pred::UGT : k == X::Umin ? Pred::ULT : k == X::Smax ? Pred::SGT : Pred::SLT;
      Val c = icmp(p, A(0), A(1), w);
      if (!c.e) ret1(c.c ? A(0) : A(1));
      else ret1(fromE(mkIte(c.e, toE(A(0), w), toE(A(1), w))));
      return;
    }
    case X::Abs: {
      unsigned w = W(0); Val c = icmp(Pred::SLT, A(0), Val{nullptr, 0}, w); Val n = binop(K::Sub, Val{nullptr, 0}, A(0), w);
      if (!c.e) ret1(c.c ? n : A(0)); else ret1(fromE(mkIte(c.e, toE(n, w), toE(A(0), w))));
      return;
    }
    case X::UaddO: { unsigned w = W(0); Val r = binop(K::Add, A(0), A(1), w); ret2(r, icmp(Pred::ULT, r, A(0), w)); return; }
    case X::UsubO: { unsigned w = W(0); Val r = binop(K::Sub, A(0), A(1), w); ret2(r, icmp(Pred::ULT, A(0), A(1), w)); return; }
    case X::SaddO: case X::SsubO: {
      unsigned w = W(0); bool add = k == X::SaddO;
      Val r = binop(add ? K::Add : K::Sub, A(0), A(1), w);
      E a = toE(A(0), w), b = toE(A(1), w), x = toE(r, w);
      E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), sx = mkExtract(x, w - 1, 1);
      E o = mkBin(K::And, add ? mkBin(K::Eq, sa, sb) : mkNot(mkBin(K::Eq, sa, sb)), mkNot(mkBin(K::Eq, sa, sx)));
      ret2(r, fromE(o)); return;
    }
    case X::UmulO: case X::SmulO: {
      unsigned w = W(0); Val a = A(0), b = A(1);
      if (!a.e && !b.e) {
        if (k == X::UmulO) { unsigned __int128 p = (unsigned __int128)a.c * b.c; ret2(Val{nullptr, (uint64_t)p & maskw(w)}, Val{nullptr, (uint64_t)(p >> w) != 0}); }
        else { __int128 p = (__int128)sextw(a.c, w) * sextw(b.c, w); uint64_t lo = (uint64_t)p & maskw(w); ret2(Val{nullptr, lo}, Val{nullptr, (__int128)sextw(lo, w) != p}); }
        return;
      }
      if (k == X::UmulO) { // overflow iff b != 0 && a > max / b
        E x = toE(a, w), y = toE(b, w);
        if (isC(x)) std::swap(x, y);
        E o = isC(y) ? (y->c ? mkBin(K::Ult, mkConst(maskw(w) / y->c, w), x) : mkConst(0, 1))
                     : mkBin(K::And, mkNot(mkBin(K::Eq, y, mkConst(0, w))), mkBin(K::Ult, mkBin(K::UDiv, mkConst(maskw(w), w), y), x));
        ret2(fromE(mkBin(K::Mul, x, y)), fromE(o)); return;
      }
      if (a.e) a = Val{nullptr, concretize(a, w)}; 
      if (b.e) b = Val{nullptr, concretize(b, w)};
      __int128 p = (__int128)sextw(a.c, w) * sextw(b.c, w); uint64_t lo = (uint64_t)p & maskw(w);
      ret2(Val{nullptr, lo}, Val{nullptr, (__int128)sextw(lo, w) != p}); return;
    }
    case X::UaddSat: { unsigned w = W(0); Val r = binop(K::Add, A(0), A(1), w); Val o = icmp(Pred::ULT, r, A(0), w);
      if (!o.e) ret1(o.c ? Val{nullptr, maskw(w)} : r); else ret1(fromE(mkIte(o.e, mkConst(maskw(w), w), toE(r, w)))); return; }
    case X::UsubSat: { unsigned w = W(0); Val r = binop(K::Sub, A(0), A(1), w); Val o = icmp(Pred::ULT, A(0), A(1), w);
      if (!o.e) ret1(o.c ? Val{nullptr, 0} : r); else ret1(fromE(mkIte(o.e, mkConst(0, w), toE(r, w)))); return; }
    case X::Ctlz: case X::Cttz: case X::Ctpop: case X::Bswap: {
      unsigned w = W(0); Val a = A(0);
      if (a.e) { // ite chain
        E e = a.e, r;
        if (k == X::Ctlz) { r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); }
        else if (k == X::Cttz) { r = mkConst(w, w); for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); }
        else if (k == X::Ctpop) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K::Add, r, mkZExt(mkExtract(e, i, 1), w)); }
        else { r = mkExtract(e, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(e, i, 8)); }
        ret1(fromE(r)); return;
      }
      uint64_t v = a.c, r;
      if (k == X::Ctlz) { r = w; for (unsigned i = 0; i < w; i++) if (v >> i & 1) r = w - 1 - i; }
      else if (k == X::Cttz) r = v ? __builtin_ctzll(v) : w;
      else if (k == X::Ctpop) r = __builtin_popcountll(v);
      else r = __builtin_bswap64(v) >> (64 - w);
      ret1(Val{nullptr, r}); return;
    }
    case X::Fshl: case X::Fshr: {
      unsigned w = W(0); uint64_t s = concretize(A(2), w) % w;
      if (k == X::Fshr) s = (w - s) % w;
      if (!s) { ret1(k == X::Fshl ? A(0) : (concretize(A(2), w) % w ? A(0) : A(1))); return; }
      E hi = mkExtract(toE(A(0), w), 0, w - (unsigned)s), lo = mkExtract(toE(A(1), w), w - (unsigned)s, (unsigned)s);
      ret1(fromE(mkConcat(hi, lo))); return;
    }
    case X::EhTypeid: ret1(Val{nullptr, selectorOf(A(0).c)}); return;
    case X::Expect: case X::Launder: ret1(A(0)); return;
    case X::ObjSize: ret1(Val{nullptr, ~0ull}); return;
    case X::IsConstant: ret1(Val{nullptr, 0}); return;
    case X::GuardAcq: { Val v = loadScalar(A(0).c, 8); bool first = !v.c && !v.e; if (first) storeScalar(A(0).c, Val{nullptr, 1}, 8); ret1(Val{nullptr, (uint64_t)first}); return; }
    case X::StackSave: ret1(Val{nullptr, 0}); return;
    case X::StackRestore: next(); return;
    case X::Strlen: { uint64_t a = concretize(A(0), 64), n = 0; for (;;) { Val v = loadScalar(a + n, 8); uint64_t c = concretize(v, 8); if (!c) break; n++; } ret1(Val{nullptr, n}); return; }
    case X::Memcmp: {
      uint64_t a = concretize(A(0), 64), b = concretize(A(1), 64), n = concretize(A(2), 64);
      E r = mkConst(0, 32);
      for (uint64_t i = n; i-- > 0;) {
        E x = toE(loadScalar(a + i, 8), 8), y = toE(loadScalar(b + i, 8), 8);
        r = mkIte(mkBin(K::Eq, x, y), r, mkIte(mkBin(K::Ult, x, y), mkConst(0xffffffff, 32), mkConst(1, 32)));
      }
      ret1(fromE(r)); return;
    }
    default: break;
  }
  (void)ext1;
  fatal("unsupported external function " + P.exts[I.ext]);
}

// ---------------------------------------------------------------- interpreter
static void runPath() {
  for (;;) {
    Frame* f = S->top();
    // Execute straight-line code in this frame until control leaves it.
    const Block* B = &f->fn->blocks[f->bb];
    Inst& I = const_cast<Inst&>(B->insts[f->ip]);
    I.hit = true;
    nSteps++;
    if (++S->steps > maxSteps) violation("nontermination", "path exceeds the step bound");
    if ((nSteps & 0xffff) == 0 && now() > deadline) { markIncomplete("time budget"); throw PathEnd(); }
    switch (I.op) {
      case Op::Bin: f->regs[I.dest] = binop((K)I.sub, get(f, I.ops[0]), get(f, I.ops[1]), I.w2); S->top()->ip++; break;
      case Op::ICmp: f->regs[I.dest] = icmp((Pred)I.sub, get(f, I.ops[0]), get(f, I.ops[1]), I.w2); f->ip++; break;
      case Op::Select: {
        Val c = get(f, I.ops[0]);
        if (c.e && I.nres == 1 && I.lay[0].w > 8) {
          // A choice between two known values (a pointer, a count) is control flow.
          Val a = get(f, I.ops[1]), b = get(f, I.ops[2]);
          if (!a.e && !b.e && a.c != b.c) { c = Val{nullptr, (uint64_t)decideRe(c.e)}; f = S->top(); }
        }
        for (unsigned i = 0; i < I.nres; i++) {
          Val a = get(f, I.ops[1], i), b = get(f, I.ops[2], i);
          if (!c.e) f->regs[I.dest + i] = c.c ? a : b;
          else { unsigned w = I.lay[i].w; f->regs[I.dest + i] = fromE(mkIte(c.e, toE(a, w), toE(b, w))); }
        }
        f->ip++; break;
      }
      case Op::Cast: {
        Val a = get(f, I.ops[0]);
        if (!a.e) {
          if (I.sub == (uint8_t)CastK::SExt) a.c = (uint64_t)sextw(a.c, I.w2) & maskw(I.w);
          else a.c &= maskw(I.w);
        } else if (I.sub == (uint8_t)CastK::Trunc) a = fromE(mkExtract(a.e, 0, I.w));
        else if (I.sub == (uint8_t)CastK::ZExt) a = fromE(mkZExt(a.e, I.w));
        else if (I.sub == (uint8_t)CastK::SExt) a = fromE(mkSExt(a.e, I.w));
        f->regs[I.dest] = a; f->ip++; break;
      }
      case Op::Alloca: {
        uint64_t n = concretize(get(f, I.ops[0]), I.ops[0].w);
        uint64_t a = allocObj(S->stack, STACK_BASE, OK_::Stack, n * I.size, true, 0);
        f = S->top(); f->regs[I.dest] = Val{nullptr, a}; f->ip++; break;
      }
      case Op::Load: {
        uint64_t a = resolve(get(f, I.ops[0]), I.size);
        f = S->top();
        for (unsigned i = 0; i < I.nres; i++) f->regs[I.dest + i] = loadScalar(a + I.lay[i].off, I.lay[i].w);
        f->ip++; break;
      }
      case Op::Store: {
        uint64_t a = resolve(get(f, I.ops[0]), I.size);
        f = S->top();
        for (unsigned i = 0; i < I.lay.size(); i++) storeScalar(a + I.lay[i].off, get(f, I.ops[1], i), I.lay[i].w);
        f->ip++; break;
      }
      case Op::Gep: {
        Val b = get(f, I.ops[0]);
        uint64_t c = (uint64_t)I.off; E e = nullptr;
        if (b.e) e = b.e; else c += b.c;
        for (size_t i = 0; i < I.scale.size(); i++) {
          Val x = get(f, I.ops[i + 1]); unsigned w = I.ops[i + 1].w;
          if (!x.e) c += (uint64_t)(sextw(x.c, w) * I.scale[i]);
          else {
            E t = mkBin(K::Mul, mkSExt(x.e, 64), mkConst((uint64_t)I.scale[i], 64));
            e = e ? mkBin(K::Add, e, t) : t;
          }
        }
        f->regs[I.dest] = e ? fromE(mkBin(K::Add, e, mkConst(c, 64))) : Val{nullptr, c};
        f->ip++; break;
      }
      case Op::Br: gotoBlock(S, I.bb[0]); break;
      case Op::CondBr: {
        Val c = get(f, I.ops[0]);
        bool t;
        if (!c.e) t = c.c & 1;
        else {
          uint32_t b0 = I.bb[0], b1 = I.bb[1];
          t = decide(c.e, [&](State* n, bool v) { gotoBlock(n, v ? b0 : b1); });
        }
        gotoBlock(S, t ? I.bb[0] : I.bb[1]);
        break;
      }
      case Op::Switch: {
        uint64_t v = 0; Val c = get(f, I.ops[0]);
        uint32_t dst = I.bb[0];
        if (!c.e) { v = c.c; for (auto& cs : I.cases) if (cs.first == v) { dst = cs.second; break; } }
        else {
          if (c.e->undef) violation("uninit", "switch depends on uninitialised memory");
          bool found = false;
          for (auto& cs : I.cases) {
            E q = mkBin(K::Eq, c.e, mkConst(cs.first, I.w2));
            if (decideRe(q)) { dst = cs.second; found = true; break; }
          }
          (void)found;
        }
        gotoBlock(S, dst); break;
      }
      case Op::Ret: {
        Val rv[16]; unsigned n = 0;
        if (!I.ops.empty()) { n = I.ops[0].n; if (n > 16) fatal("large return value"); for (unsigned i = 0; i < n; i++) rv[i] = get(f, I.ops[0], i); }
        doReturn(rv, n); break;
      }
      case Op::Call: case Op::Invoke: {
        if (I.callee < 0 && I.ext >= 0) { callExt(I); break; }
        size_t na = I.ops.size(); int callee = I.callee;
        if (callee < 0) {
          na--;
          uint64_t a = concretize(get(f, I.ops[na]), 64);
          auto it = P.byAddr.find(a);
          if (it == P.byAddr.end()) {
            auto jt = P.extByAddr.find(a);
            if (jt == P.extByAddr.end()) violation("memory", "call through an invalid function pointer");
            Inst J = I; J.ext = jt->second; J.ops.pop_back();
            callExt(J); break;
          }
          callee = it->second;
        }
        Val args[64]; unsigned n = 0;
        for (size_t i = 0; i < na; i++) for (unsigned j = 0; j < I.ops[i].n; j++) { if (n >= 64) fatal("too many arguments"); args[n++] = get(f, I.ops[i], j); }
        pushFrame(callee, args, n);
        break;
      }
      case Op::Landingpad: fatal("landingpad reached by fallthrough"); break;
      case Op::Resume: {
        uint64_t a = get(f, I.ops[0], 0).c;
        S->popFrame();
        unwindFrom(a);
        break;
      }
      case Op::Unreachable: violation("unreachable", "unreachable code reached");
      case Op::ExtractValue: for (unsigned i = 0; i < I.nres; i++) f->regs[I.dest + i] = get(f, I.ops[0], I.exidx + i); f->ip++; break;
      case Op::InsertValue: {
        std::vector<Val> t(I.nres);
        for (unsigned i = 0; i < I.nres; i++) t[i] = get(f, I.ops[0], i);
        for (unsigned i = 0; i < I.ops[1].n; i++) t[I.exidx + i] = get(f, I.ops[1], i);
        for (unsigned i = 0; i < I.nres; i++) f->regs[I.dest + i] = t[i];
        f->ip++; break;
      }
      case Op::Freeze: for (unsigned i = 0; i < I.nres; i++) f->regs[I.dest + i] = get(f, I.ops[0], i); f->ip++; break;
      case Op::Unsupported: fatal("unsupported instruction " + I.txt);
    }
  }
}

int main(int argc, char** argv) {
  std::string bc, outp, covp;
  double budget = 600; bool oneShot = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry") entryName = argv[++i];
    else if (a == "--out") outp = argv[++i];
    else if (a == "--cov") covp = argv[++i];
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--known") knownSubs.push_back(argv[++i]);
    else if (a == "--tests") maxTests = (unsigned)atoi(argv[++i]);
    else if (a == "--max-steps") maxSteps = strtoull(argv[++i], 0, 10);
    else if (a == "--max-viol") maxViolPaths = strtoull(argv[++i], 0, 10);
    else if (a == "--shard") {
      std::string v = argv[++i]; size_t e = v.find('='), c = v.find(':', e);
      uint64_t lo = strtoull(v.c_str() + e + 1, 0, 10);
      shards.push_back(Shard{v.substr(0, e), lo, c == std::string::npos ? lo : strtoull(v.c_str() + c + 1, 0, 10)});
    }
    else if (a == "--oneshot") oneShot = true;
    else bc = a;
  }
  (void)oneShot;
  tStart = now(); deadline = tStart + budget;
  std::string err;
  if (!loadProgram(bc.c_str(), P, err)) { fprintf(stderr, "symx: cannot load %s: %s\n", bc.c_str(), err.c_str()); return 3; }
  classify();
  solverInit(30000);
  double tLoad = now() - tStart;
  auto it = P.byName.find(entryName);
  if (it == P.byName.end()) { fprintf(stderr, "symx: no function %s\n", entryName.c_str()); return 3; }

  State* s0 = new State;
  S = s0;
  for (size_t i = 0; i < P.globals.size(); i++) {
    uint64_t a = P.globalAddrs[i];
    size_t slot = (a - GLOB_BASE) >> SLOT_BITS;
    while (s0->globals.n < slot) { Obj* r = new Obj; r->base = s0->globals.n; r->size = 0; r->freed = true; s0->globals.push(r); }
    Obj* o = new Obj; o->kind = OK_::Global; o->base = a; o->size = P.globals[i].size; o->bytes = P.globals[i].bytes; o->constant = P.globals[i].constant;
    s0->globals.push(o);
    uint64_t endSlot = (a + o->size + 0x1000 + 0xffff - GLOB_BASE) >> SLOT_BITS;
    while (s0->globals.n < endSlot) { Obj* r = new Obj; r->base = slot; r->size = ~0ull; s0->globals.push(r); }
  }
  // Static constructors run first, concretely.
  for (int c : P.ctors) {
    S = s0; pushFrame(c, nullptr, 0);
    uint64_t before = nPaths;
    try { runPath(); } catch (PathEnd&) {}
    if (nPaths == before) { fprintf(stderr, "symx: static constructor failed: %s\n", engineError.c_str()); return 3; }
    nPaths = 0;
  }
  // (objects allocated by static constructors are not leaks)
  for (size_t i = 0; i < s0->heap.n; i++) { Obj* o = s0->heap.get(i); if (o && o->size != ~0ull) s0->heap.mut(i)->how |= 0; }
  S = s0; s0->steps = 0;
  pushFrame(it->second, nullptr, 0);
  work.push_back(s0);
  while (!work.empty()) {
    S = work.back(); work.pop_back();
    try { runPath(); } catch (PathEnd&) {}
    delete S; S = nullptr;
    if (!engineError.empty()) break;
    if (violPaths >= maxViolPaths) { if (!work.empty()) markIncomplete("stopped after violations"); break; }
    if (now() > deadline) { if (!work.empty()) markIncomplete("time budget"); break; }
  }
  double wall = now() - tStart;
  FILE* o = outp.empty() ? stdout : fopen(outp.c_str(), "w");
  fprintf(o, "{\"entry\":%s,\"paths\":%llu,\"pruned\":%llu,\"asserted\":%llu,\"steps\":%llu,\"forks\":%llu,\"checks\":%llu,\"symbolic_checks\":%llu,", jstr(entryName).c_str(),
    (unsigned long long)nPaths, (unsigned long long)nPruned, (unsigned long long)nAborted, (unsigned long long)nSteps, (unsigned long long)nForks, (unsigned long long)nChecks, (unsigned long long)nSymChecks);
  fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cached\":%llu,\"fast\":%llu,\"xchecked\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"load_s\":%.3f,\"exprs\":%llu,",
    (unsigned long long)gSolver.queries, (unsigned long long)gSolver.sat, (unsigned long long)gSolver.unsat, (unsigned long long)gSolver.unknown, (unsigned long long)gSolver.cached, (unsigned long long)gSolver.fast, (unsigned long long)gSolver.xchecked, gSolver.seconds, wall, tLoad, (unsigned long long)exprCount());
  fprintf(o, "\"incomplete\":%s,\"why\":%s,\"error\":%s,\"pending\":%llu,\"reach\":{", incomplete ? "true" : "false", jstr(incompleteWhy).c_str(), jstr(engineError).c_str(), (unsigned long long)work.size());
  bool first = true;
  for (auto& r : reachNames) if (!reachCount.count(r)) reachCount[r] = 0;
  for (auto& kv : reachCount) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  fprintf(o, "},\"unsupported\":{"); first = true;
  for (auto& kv : unsupported) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  fprintf(o, "},\"violations\":[");
  for (size_t i = 0; i < viols.size(); i++) {
    auto& v = viols[i];
    fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"harness\":%s,\"count\":%llu,\"known\":%s,\"inputs\":[", i ? "," : "", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.where).c_str(), jstr(v.harnessWhere).c_str(), (unsigned long long)v.count, v.known ? "true" : "false");
    for (size_t j = 0; j < v.inputs.size(); j++) fprintf(o, "%s[%s,%llu]", j ? "," : "", jstr(v.inputs[j].first).c_str(), (unsigned long long)v.inputs[j].second);
    fprintf(o, "]}");
  }
  fprintf(o, "],\"tests\":[");
  for (size_t i = 0; i < tests.size(); i++) {
    fprintf(o, "%s{\"inputs\":[", i ? "," : "");
    for (size_t j = 0; j < tests[i].inputs.size(); j++) fprintf(o, "%s[%s,%llu]", j ? "," : "", jstr(tests[i].inputs[j].first).c_str(), (unsigned long long)tests[i].inputs[j].second);
    fprintf(o, "],\"obs\":[");
    for (size_t j = 0; j < tests[i].obs.size(); j++) fprintf(o, "%s%llu", j ? "," : "", (unsigned long long)tests[i].obs[j]);
    fprintf(o, "]}");
  }
  // functions of the library that were executed (by debug location, so inlined code counts)
  std::set<std::string> fns; std::map<std::string, std::map<uint32_t, bool>> lines;
  for (auto& F : P.fns) for (auto& B : F.blocks) for (auto& I : B.insts) {
    const Loc& l = P.locs[I.loc];
    size_t p = l.file.find("include/sfl/");
    if (p == std::string::npos) continue;
    bool& h = lines[l.file.substr(p + 12)][l.line];
    h = h || I.hit;
    if (I.hit) fns.insert(l.func);
  }
  fprintf(o, "],\"functions\":%llu,\"lines\":{", (unsigned long long)fns.size());
  first = true;
  for (auto& kv : lines) {
    uint64_t h = 0; for (auto& x : kv.second) h += x.second;
    fprintf(o, "%s%s:[%llu,%llu]", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)h, (unsigned long long)kv.second.size());
    first = false;
  }
  fprintf(o, "}}\n");
  if (o != stdout) fclose(o);
  if (!covp.empty()) {
    FILE* c = fopen(covp.c_str(), "w");
    for (auto& kv : lines) for (auto& x : kv.second) fprintf(c, "%s:%u:%d\n", kv.first.c_str(), x.first, (int)x.second);
    for (auto& f : fns) fprintf(c, "fn:%s\n", f.c_str());
    fclose(c);
  }
  fflush(stdout);
  _exit(engineError.empty() ? 0 : 4);
}
