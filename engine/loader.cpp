// LLVM IR -> Program
#include "program.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <cstring>
using namespace llvm;

namespace {
struct Loader {
  Program& P;
  const DataLayout& DL;
  Module& M;
  std::string err;
  std::map<const llvm::Function*, int> fnIdx;
  std::map<std::string, int> extIdx;
  std::map<std::string, uint64_t> extAddr;
  std::map<std::tuple<std::string, uint32_t, std::string>, uint32_t> locIdx;
  uint64_t nextFn = FN_BASE;
  uint64_t nextGlob = GLOB_BASE;
  Loader(Program& P, Module& M) : P(P), DL(M.getDataLayout()), M(M) {}

  void flatten(Type* t, uint64_t off, std::vector<Scalar>& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL.getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out);
    } else if (t->isVoidTy()) {
    } else {
      uint64_t b = t->isPointerTy() ? 64 : (t->isIntegerTy() ? t->getIntegerBitWidth() : (t->isVectorTy() || t->isX86_FP80Ty()) ? 999 : DL.getTypeSizeInBits(t).getFixedValue());
      if (b == 128 && t->isIntegerTy()) b = 999;
      out.push_back(Scalar{(uint32_t)off, (uint8_t)(b > 64 ? 255 : b)});
    }
  }
  std::vector<Scalar> lay(Type* t) { std::vector<Scalar> v; flatten(t, 0, v); return v; }

  uint64_t addrOfFn(const llvm::Function* f) {
    std::string n = f->getName().str();
    auto it = fnIdx.find(f);
    if (it != fnIdx.end()) return P.fns[it->second].addr;
    auto jt = extAddr.find(n);
    if (jt != extAddr.end()) return jt->second;
    uint64_t a = nextFn; nextFn += 16;
    extAddr[n] = a;
    P.extByAddr[a] = ext(n);
    return a;
  }
  int ext(const std::string& n) {
    auto it = extIdx.find(n);
    if (it != extIdx.end()) return it->second;
    int i = (int)P.exts.size(); P.exts.push_back(n); extIdx[n] = i; return i;
  }
  uint64_t addrOfGlobal(const GlobalValue* g) {
    if (auto* f = dyn_cast<llvm::Function>(g)) return addrOfFn(f);
    if (auto* al = dyn_cast<GlobalAlias>(g)) { Val v = scalarConst(al->getAliasee()); return v.c; }
    auto it = P.globalAddr.find(g->getName().str());
    if (it != P.globalAddr.end()) return it->second;
    err = "unknown global " + g->getName().str();
    return 0;
  }
  Val scalarConst(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() > 64) { err = "wide constant"; return Val{nullptr, 0}; }
      return Val{nullptr, ci->getZExtValue()};
    }
    if (isa<ConstantPointerNull>(c)) return Val{nullptr, 0};
    if (isa<UndefValue>(c)) {
      Type* t = c->getType();
      unsigned w = t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
      return Val{mkUndef(w), 0};
    }
    if (auto* g = dyn_cast<GlobalValue>(c)) return Val{nullptr, addrOfGlobal(g)};
    if (auto* cf = dyn_cast<ConstantFP>(c)) return Val{nullptr, cf->getValueAPF().bitcastToAPInt().getZExtValue()};
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      unsigned op = ce->getOpcode();
      if (op == Instruction::GetElementPtr) {
        APInt off(64, 0);
        auto* gep = cast<GEPOperator>(ce);
        if (!gep->accumulateConstantOffset(DL, off)) { err = "constexpr gep"; return Val{nullptr, 0}; }
        return Val{nullptr, scalarConst(cast<Constant>(gep->getPointerOperand())).c + off.getSExtValue()};
      }
      if (op == Instruction::IntToPtr || op == Instruction::PtrToInt || op == Instruction::BitCast || op == Instruction::AddrSpaceCast) {
        Val v = scalarConst(ce->getOperand(0));
        if (ce->getType()->isIntegerTy()) v.c &= maskw(ce->getType()->getIntegerBitWidth());
        return v;
      }
      if (op == Instruction::Sub || op == Instruction::Add || op == Instruction::Trunc) {
        Val a = scalarConst(ce->getOperand(0));
        unsigned w = ce->getType()->getIntegerBitWidth();
        if (op == Instruction::Trunc) return Val{nullptr, a.c & maskw(w)};
        Val b = scalarConst(ce->getOperand(1));
        return Val{nullptr, (op == Instruction::Sub ? a.c - b.c : a.c + b.c) & maskw(w)};
      }
      if (op == Instruction::ICmp) {
        Val a = scalarConst(ce->getOperand(0)), b = scalarConst(ce->getOperand(1));
        if (ce->getPredicate() == CmpInst::ICMP_EQ) return Val{nullptr, (uint64_t)(a.c == b.c)};
        if (ce->getPredicate() == CmpInst::ICMP_NE) return Val{nullptr, (uint64_t)(a.c != b.c)};
      }
    }
    if (auto* nc = dyn_cast<NoCFIValue>(c)) return scalarConst(nc->getGlobalValue());
    if (auto* ds = dyn_cast<DSOLocalEquivalent>(c)) return scalarConst(ds->getGlobalValue());
    std::string s; raw_string_ostream os(s); c->print(os);
    err = "constant: " + s;
    return Val{nullptr, 0};
  }
  void flatConst(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy()) {
      uint64_t n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (uint64_t i = 0; i < n; i++) flatConst(c->getAggregateElement(i), out);
      return;
    }
    out.push_back(scalarConst(c));
  }
  void initBytes(const Constant* c, uint64_t off, GlobalInit& g) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c)) return;
    if (t->isStructTy() || t->isArrayTy()) {
      if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        memcpy(g.bytes.data() + off, r.data(), r.size());
        return;
      }
      if (isa<UndefValue>(c)) { return; }
      if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(c->getAggregateElement(i), off + sl->getElementOffset(i), g);
      } else {
        uint64_t es = DL.getTypeAllocSize(t->getArrayElementType());
        for (uint64_t i = 0; i < t->getArrayNumElements(); i++) initBytes(c->getAggregateElement((unsigned)i), off + i * es, g);
      }
      return;
    }
    if (isa<UndefValue>(c)) return;
    Val v = scalarConst(c);
    uint64_t sz = DL.getTypeStoreSize(t);
    memcpy(g.bytes.data() + off, &v.c, sz > 8 ? 8 : sz);
  }

  std::map<const Value*, int> regs;
  llvm::Function* cur = nullptr;
  ::Function* F = nullptr;

  Opnd opnd(const Value* v) {
    Opnd o;
    auto l = lay(v->getType());
    o.n = (uint16_t)l.size();
    o.w = l.empty() ? 0 : l[0].w;
    if (auto* c = dyn_cast<Constant>(v)) {
      std::vector<Val> vs; flatConst(c, vs);
      o.idx = (int)P.pool.size(); o.reg = false;
      for (auto& x : vs) P.pool.push_back(x);
      return o;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { o.n = 0; return o; }
    auto it = regs.find(v);
    if (it == regs.end()) { err = "no register"; return o; }
    o.reg = true; o.idx = it->second;
    return o;
  }
  uint32_t locOf(const Instruction& I) {
    DebugLoc d = I.getDebugLoc();
    if (!d) return 0;
    auto* sc = cast<DILocalScope>(d.getScope());
    std::string fn;
    if (auto* sp = sc->getSubprogram()) fn = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str();
    auto key = std::make_tuple(sc->getFilename().str(), (uint32_t)d.getLine(), fn);
    auto it = locIdx.find(key);
    if (it != locIdx.end()) return it->second;
    uint32_t i = (uint32_t)P.locs.size();
    P.locs.push_back(Loc{std::get<0>(key), std::get<1>(key), fn});
    locIdx[key] = i;
    return i;
  }

  bool run() {
    P.locs.push_back(Loc{"", 0, ""});
    for (auto& f : M) if (!f.isDeclaration()) {
      int i = (int)P.fns.size();
      P.fns.emplace_back();
      P.fns[i].name = f.getName().str();
      P.fns[i].pretty = demangle(P.fns[i].name);
      P.fns[i].addr = nextFn; nextFn += 16;
      P.byName[P.fns[i].name] = i;
      P.byAddr[P.fns[i].addr] = i;
      fnIdx[&f] = i;
    }
    for (auto& f : M) if (f.isDeclaration()) P.nameOfAddr[addrOfFn(&f)] = f.getName().str();
    for (auto& g : M.globals()) {
      if (g.getName().startswith("llvm.")) continue;
      std::string n = g.getName().str();
      if (n.empty()) { n = ".anon" + std::to_string(P.globals.size()); g.setName(n); n = g.getName().str(); }
      uint64_t sz = g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
      if (g.isDeclaration() && sz < 64) sz = 64;
      GlobalInit gi; gi.size = sz; gi.bytes.assign(sz, 0); gi.constant = g.isConstant(); gi.name = n;
      uint64_t a = nextGlob + 0x1000;
      nextGlob = (a + sz + 0x1000 + 0xffff) & ~0xffffull;
      P.globalAddr[n] = a; P.nameOfAddr[a] = n;
      P.globals.push_back(gi); P.globalAddrs.push_back(a);
    }
    size_t gi = 0;
    for (auto& g : M.globals()) {
      if (g.getName().startswith("llvm.")) {
        if (g.getName() == "llvm.global_ctors" && g.hasInitializer()) {
          auto* arr = g.getInitializer();
          for (unsigned i = 0; i < arr->getNumOperands(); i++) {
            auto* s = cast<Constant>(arr->getOperand(i));
            if (auto* f = dyn_cast<llvm::Function>(s->getOperand(1))) if (fnIdx.count(f)) P.ctors.push_back(fnIdx[f]);
          }
        }
        continue;
      }
      if (g.hasInitializer()) initBytes(g.getInitializer(), 0, P.globals[gi]);
      gi++;
      if (!err.empty()) return false;
    }
    for (auto& f : M) if (!f.isDeclaration()) { if (!decode(f)) { if (err.empty()) err = "decode " + f.getName().str(); return false; } }
    return true;
  }

  bool decode(llvm::Function& f) {
    cur = &f; F = &P.fns[fnIdx[&f]]; regs.clear();
    uint32_t n = 0;
    for (auto& a : f.args()) {
      auto l = lay(a.getType());
      regs[&a] = n; F->argReg.push_back(n); F->argN.push_back((uint16_t)l.size()); F->argW.push_back(l.empty() ? 0 : l[0].w);
      F->byval.push_back(a.hasByValAttr() ? DL.getTypeAllocSize(a.getParamByValType()).getFixedValue() : 0);
      n += l.size();
    }
    std::map<const BasicBlock*, uint32_t> bbi;
    for (auto& b : f) { uint32_t i = (uint32_t)bbi.size(); bbi[&b] = i; }
    for (auto& b : f) for (auto& I : b) if (!I.getType()->isVoidTy()) { regs[&I] = n; n += lay(I.getType()).size(); }
    F->nregs = n;
    F->blocks.resize(bbi.size());
    for (auto& b : f) {
      Block& B = F->blocks[bbi[&b]];
      for (auto& I : b) {
        if (auto* ph = dyn_cast<PHINode>(&I)) {
          Phi p; p.dest = regs[ph]; p.n = (uint16_t)lay(ph->getType()).size();
          for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) p.in.push_back({bbi[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i))});
          B.phis.push_back(p);
          continue;
        }
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
          switch (ii->getIntrinsicID()) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::donothing:
            case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::prefetch:
            case Intrinsic::invariant_end: case Intrinsic::assume:
              continue;
            default: break;
          }
        }
        B.insts.emplace_back();
        Inst& N = B.insts.back();
        N.loc = locOf(I);
        if (!I.getType()->isVoidTy()) {
          N.dest = regs[&I];
          auto l = lay(I.getType());
          N.nres = (uint16_t)l.size(); N.w = l.empty() ? 0 : l[0].w;
          for (auto& s : l) if (s.w == 255) { N.op = Op::Unsupported; raw_string_ostream(N.txt) << I; goto next; }
        }
        if (!decodeInst(I, N, bbi)) { N.op = Op::Unsupported; raw_string_ostream(N.txt) << I; if (!err.empty()) return false; }
      next:;
        if (!err.empty()) return false;
      }
    }
    return true;
  }

  bool decodeInst(Instruction& I, Inst& N, std::map<const BasicBlock*, uint32_t>& bbi) {
    if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
      static const std::map<unsigned, K> m = {
        {Instruction::Add, K::Add}, {Instruction::Sub, K::Sub}, {Instruction::Mul, K::Mul}, {Instruction::UDiv, K::UDiv},
        {Instruction::SDiv, K::SDiv}, {Instruction::URem, K::URem}, {Instruction::SRem, K::SRem}, {Instruction::And, K::And},
        {Instruction::Or, K::Or}, {Instruction::Xor, K::Xor}, {Instruction::Shl, K::Shl}, {Instruction::LShr, K::LShr}, {Instruction::AShr, K::AShr}};
      auto it = m.find(bo->getOpcode());
      if (it == m.end()) return false;
      N.op = Op::Bin; N.sub = (uint8_t)it->second;
      N.ops = {opnd(bo->getOperand(0)), opnd(bo->getOperand(1))};
      N.w2 = N.w;
      return true;
    }
    if (auto* ic = dyn_cast<ICmpInst>(&I)) {
      N.op = Op::ICmp;
      N.ops = {opnd(ic->getOperand(0)), opnd(ic->getOperand(1))};
      N.w2 = N.ops[0].w;
      if (N.w2 > 64) return false;
      switch (ic->getPredicate()) {
        case CmpInst::ICMP_EQ: N.sub = (uint8_t)Pred::EQ; break; case CmpInst::ICMP_NE: N.sub = (uint8_t)Pred::NE; break;
        case CmpInst::ICMP_UGT: N.sub = (uint8_t)Pred::UGT; break; case CmpInst::ICMP_UGE: N.sub = (uint8_t)Pred::UGE; break;
        case CmpInst::ICMP_ULT: N.sub = (uint8_t)Pred::ULT; break; case CmpInst::ICMP_ULE: N.sub = (uint8_t)Pred::ULE; break;
        case CmpInst::ICMP_SGT: N.sub = (uint8_t)Pred::SGT; break; case CmpInst::ICMP_SGE: N.sub = (uint8_t)Pred::SGE; break;
        case CmpInst::ICMP_SLT: N.sub = (uint8_t)Pred::SLT; break; case CmpInst::ICMP_SLE: N.sub = (uint8_t)Pred::SLE; break;
        default: return false;
      }
      return true;
    }
    if (auto* s = dyn_cast<SelectInst>(&I)) {
      N.op = Op::Select;
      N.ops = {opnd(s->getCondition()), opnd(s->getTrueValue()), opnd(s->getFalseValue())};
      N.lay = lay(I.getType());
      return N.ops[0].w == 1;
    }
    if (auto* c = dyn_cast<CastInst>(&I)) {
      N.op = Op::Cast;
      N.ops = {opnd(c->getOperand(0))};
      N.w2 = N.ops[0].w;
      if (N.w2 > 64) return false;
      switch (c->getOpcode()) {
        case Instruction::Trunc: N.sub = (uint8_t)CastK::Trunc; return true;
        case Instruction::ZExt: N.sub = (uint8_t)CastK::ZExt; return true;
        case Instruction::SExt: N.sub = (uint8_t)CastK::SExt; return true;
        case Instruction::PtrToInt: case Instruction::IntToPtr:
          N.sub = (uint8_t)(N.w < N.w2 ? CastK::Trunc : N.w > N.w2 ? CastK::ZExt : CastK::Same); return true;
        case Instruction::BitCast: case Instruction::AddrSpaceCast: N.sub = (uint8_t)CastK::Same; return true;
        default: return false;
      }
    }
    if (auto* a = dyn_cast<AllocaInst>(&I)) {
      N.op = Op::Alloca; N.size = DL.getTypeAllocSize(a->getAllocatedType());
      N.ops = {opnd(a->getArraySize())};
      return true;
    }
    if (auto* l = dyn_cast<LoadInst>(&I)) {
      N.op = Op::Load; N.ops = {opnd(l->getPointerOperand())}; N.lay = lay(l->getType());
      N.size = DL.getTypeStoreSize(l->getType());
      return true;
    }
    if (auto* s = dyn_cast<StoreInst>(&I)) {
      N.op = Op::Store; N.ops = {opnd(s->getPointerOperand()), opnd(s->getValueOperand())}; N.lay = lay(s->getValueOperand()->getType());
      N.size = DL.getTypeStoreSize(s->getValueOperand()->getType());
      for (auto& x : N.lay) if (x.w == 255) return false;
      return true;
    }
    if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
      N.op = Op::Gep; N.ops = {opnd(g->getPointerOperand())};
      int64_t off = 0;
      for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt) {
        Value* idx = gt.getOperand();
        if (auto* st = gt.getStructTypeOrNull()) {
          off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
        } else {
          int64_t es = (int64_t)DL.getTypeAllocSize(gt.getIndexedType()).getFixedValue();
          if (auto* ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * es;
          else { N.ops.push_back(opnd(idx)); N.scale.push_back(es); }
        }
      }
      N.off = off;
      return true;
    }
    if (auto* b = dyn_cast<BranchInst>(&I)) {
      if (b->isConditional()) { N.op = Op::CondBr; N.ops = {opnd(b->getCondition())}; N.bb[0] = bbi[b->getSuccessor(0)]; N.bb[1] = bbi[b->getSuccessor(1)]; }
      else { N.op = Op::Br; N.bb[0] = bbi[b->getSuccessor(0)]; }
      return true;
    }
    if (auto* s = dyn_cast<SwitchInst>(&I)) {
      N.op = Op::Switch; N.ops = {opnd(s->getCondition())}; N.w2 = N.ops[0].w; N.bb[0] = bbi[s->getDefaultDest()];
      for (auto& c : s->cases()) N.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]});
      return true;
    }
    if (auto* r = dyn_cast<ReturnInst>(&I)) { N.op = Op::Ret; if (r->getReturnValue()) N.ops = {opnd(r->getReturnValue())}; return true; }
    if (isa<UnreachableInst>(I)) { N.op = Op::Unreachable; return true; }
    if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
      N.op = Op::ExtractValue; N.ops = {opnd(ev->getAggregateOperand())}; N.exidx = flatIdx(ev->getAggregateOperand()->getType(), ev->getIndices());
      return true;
    }
    if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
      N.op = Op::InsertValue; N.ops = {opnd(iv->getAggregateOperand()), opnd(iv->getInsertedValueOperand())};
      N.exidx = flatIdx(iv->getType(), iv->getIndices());
      return true;
    }
    if (auto* fz = dyn_cast<FreezeInst>(&I)) { N.op = Op::Freeze; N.ops = {opnd(fz->getOperand(0))}; return true; }
    if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
      N.op = Op::Landingpad; N.cleanup = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        ClauseT c; c.isCatch = lp->isCatch(i);
        if (c.isCatch) { c.ti = scalarConst(lp->getClause(i)).c; }
        else {
          auto* t = lp->getClause(i)->getType();
          if (t->getArrayNumElements() != 0) return false;
          c.ti = 0;
        }
        N.clauses.push_back(c);
      }
      return true;
    }
    if (auto* r = dyn_cast<ResumeInst>(&I)) { N.op = Op::Resume; N.ops = {opnd(r->getValue())}; return true; }
    if (auto* cb = dyn_cast<CallBase>(&I)) {
      N.op = isa<InvokeInst>(I) ? Op::Invoke : Op::Call;
      if (cb->isInlineAsm()) {
        auto* ia = cast<InlineAsm>(cb->getCalledOperand());
        if (ia->getAsmString().empty() && I.getType()->isVoidTy()) { N.ext = ext("llvm.donothing"); return true; }
        return false;
      }
      for (unsigned i = 0; i < cb->arg_size(); i++) {
        N.ops.push_back(opnd(cb->getArgOperand(i)));
        if (N.ops.back().w == 255) return false;
      }
      if (auto* iv = dyn_cast<InvokeInst>(&I)) { N.bb[0] = bbi[iv->getNormalDest()]; N.bb[1] = bbi[iv->getUnwindDest()]; }
      if (auto* f = cb->getCalledFunction()) {
        if (f->isDeclaration()) {
          std::string n = f->getName().str();
          N.ext = ext(n);
          if (f->isIntrinsic()) N.lay = lay(I.getType());
        } else N.callee = fnIdx[f];
      } else {
        Value* cv = cb->getCalledOperand();
        if (auto* al = dyn_cast<GlobalAlias>(cv)) if (auto* f = dyn_cast<llvm::Function>(al->getAliasee())) { if (!f->isDeclaration()) { N.callee = fnIdx[f]; return true; } }
        N.ops.push_back(opnd(cv));   // last operand: function pointer
      }
      return true;
    }
    return false;
  }
  uint32_t flatIdx(Type* t, ArrayRef<unsigned> idx) {
    uint32_t n = 0;
    for (unsigned i : idx) {
      for (unsigned j = 0; j < i; j++) { Type* et = t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType(); n += lay(et).size(); }
      t = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
    }
    return n;
  }
};
}

bool loadProgram(const char* path, Program& P, std::string& err) {
  static LLVMContext ctx;
  SMDiagnostic d;
  auto M = parseIRFile(path, d, ctx);
  if (!M) { err = d.getMessage().str(); return false; }
  Loader L(P, *M);
  bool ok = L.run();
  err = L.err;
  return ok;
}
