// sxpass: LLVM 18 pass plugin that turns ordinary code into symbolically executed code.
//
// Stage 1 (pipeline start): bodies of GMP's extern-inline functions are dropped and calls to
//   GMP / a few libc functions are redirected to wrappers in the runtime (sx_w_<name>).
// Stage 2 (optimizer last): every integer SSA value gets a "shadow" (pointer to a symbolic term, null =
//   concrete).  Arithmetic, comparisons, loads, stores, calls, branches call the runtime.
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Scalar/LowerExpectIntrinsic.h"
#include <map>
#include <set>
#include <vector>
#include <string>
using namespace llvm;

static const std::set<std::string> &wrapped() {
  static const std::set<std::string> s = {
#define W(x) #x,
#include "wrapped.inc"
#undef W
  };
  return s;
}

static bool startsWith(StringRef s, const char *p) { return s.starts_with(p); }

// lift simple x86-64 integer assembly (add/adc/sub/sbb/mov on 64-bit operands) to IR; false = not understood
static bool liftAsm(CallInst *CI) {
  auto *IA = cast<InlineAsm>(CI->getCalledOperand()); LLVMContext &C = CI->getContext(); Type *I64 = Type::getInt64Ty(C), *I128 = Type::getInt128Ty(C);
  std::vector<std::string> cons; { std::string t; for (char ch : IA->getConstraintString() + std::string(",")) if (ch == ',') { cons.push_back(t); t.clear(); } else t += ch; }
  unsigned no = 0; for (auto &c : cons) if (!c.empty() && c[0] == '=') no++;
  std::vector<Value *> reg(no, nullptr); unsigned ai = 0, ni = 0;
  for (size_t i = no; i < cons.size(); ++i) { const std::string &c = cons[i]; if (c.empty() || c[0] == '~') continue; if (c.find('*') != std::string::npos || ai >= CI->arg_size()) return false; Value *a = CI->getArgOperand(ai++); if (!a->getType()->isIntegerTy(64)) return false; if (isdigit((unsigned char)c[0])) { unsigned k = atoi(c.c_str()); if (k >= no) return false; reg[k] = a; } reg.push_back(a); ni++; }
  Type *RT = CI->getType(); if (no == 1 ? !RT->isIntegerTy(64) : !RT->isStructTy()) return false;
  if (auto *S = dyn_cast<StructType>(RT)) { if (S->getNumElements() != no) return false; for (Type *E : S->elements()) if (!E->isIntegerTy(64)) return false; }
  struct Op { std::string op; int src; uint64_t imm; unsigned dst; }; std::vector<Op> ops;
  std::string line; std::string A = IA->getAsmString() + std::string("\n");
  for (char ch : A) { if (ch != '\n' && ch != ';') { line += ch; continue; }
    std::vector<std::string> w; { std::string t; for (char c : line + " ") if (c == ' ' || c == '\t' || c == ',') { if (!t.empty()) w.push_back(t); t.clear(); } else t += c; } line.clear();
    if (w.empty()) continue; if (w.size() != 3) return false; if (w[0] != "addq" && w[0] != "adcq" && w[0] != "subq" && w[0] != "sbbq" && w[0] != "movq") return false;
    Op o; o.op = w[0]; o.imm = 0; auto num = [](std::string s, int &r) { if (s.size() > 2 && s[0] == '$' && s[1] == '{') s = "$" + s.substr(2, s.size() - 3); if (s.size() < 2 || s[0] != '$' || !isdigit((unsigned char)s[1])) return false; r = atoi(s.c_str() + 1); return true; };
    if (w[1].compare(0, 2, "$$") == 0) { o.src = -1; o.imm = (uint64_t)strtoll(w[1].c_str() + 2, nullptr, 0); } else if (!num(w[1], o.src)) return false;
    int d; if (!num(w[2], d) || (unsigned)d >= no) return false; o.dst = d; if (o.src >= (int)reg.size()) return false; ops.push_back(o); }
  IRBuilder<> B(CI); Value *cf = ConstantInt::get(I128, 0);
  for (auto &o : ops) {
    Value *s = o.src < 0 ? ConstantInt::get(I64, o.imm) : reg[o.src]; if (!s) return false;
    if (o.op == "movq") { reg[o.dst] = s; continue; }
    if (!reg[o.dst]) return false; bool add = o.op[0] == 'a', c = o.op[1] == 'd' ? o.op[2] == 'c' : o.op[1] == 'b';
    Value *x = B.CreateZExt(reg[o.dst], I128), *y = B.CreateZExt(s, I128), *r = add ? B.CreateAdd(x, y) : B.CreateSub(x, y);
    if (c) r = add ? B.CreateAdd(r, cf) : B.CreateSub(r, cf);
    reg[o.dst] = B.CreateTrunc(r, I64); cf = B.CreateAnd(B.CreateLShr(r, 64), ConstantInt::get(I128, 1));
  }
  for (unsigned i = 0; i < no; ++i) if (!reg[i]) return false;
  Value *R; if (no == 1) R = reg[0]; else { R = PoisonValue::get(RT); for (unsigned i = 0; i < no; ++i) R = B.CreateInsertValue(R, reg[i], i); }
  CI->replaceAllUsesWith(R); CI->eraseFromParent(); return true;
}

struct SxPre : PassInfoMixin<SxPre> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    { std::vector<CallInst *> as; for (Function &F : M) for (auto &BB : F) for (auto &I : BB) if (auto *CI = dyn_cast<CallInst>(&I)) if (CI->isInlineAsm()) as.push_back(CI); for (auto *CI : as) liftAsm(CI); }
    std::vector<Function *> work;
    for (Function &F : M) {
      StringRef n = F.getName();
      if (startsWith(n, "__gmp") && !F.isDeclaration()) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
      if (F.isDeclaration() && wrapped().count(n.str())) work.push_back(&F);
      if (!F.isDeclaration()) { F.removeFnAttr(Attribute::OptimizeNone); }
    }
    for (Function *F : work) {
      std::string nn = "sx_w_" + F->getName().str();
      FunctionCallee C = M.getOrInsertFunction(nn, F->getFunctionType());
      Function *NF = cast<Function>(C.getCallee());
      F->replaceAllUsesWith(NF);
    }
    for (Function &F : M) { // GMP declarations carry pure/nonnull attributes that would allow reordering; drop them
      if (startsWith(F.getName(), "__gmp") || startsWith(F.getName(), "sx_")) {
        F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn); F.removeFnAttr(Attribute::NoUnwind);
        for (auto *U : F.users()) if (auto *CB = dyn_cast<CallBase>(U)) { CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::WillReturn); }
      }
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

struct Inst {
  Module &M; LLVMContext &C; const DataLayout &DL;
  PointerType *P; IntegerType *I64, *I32, *I8, *I1; Type *VoidT;
  Constant *Null;
  GlobalVariable *gArgs, *gCallee, *gRets, *gRetFn;
  enum { MAXA = 64 };
  Inst(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    P = PointerType::getUnqual(C); I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I8 = Type::getInt8Ty(C); I1 = Type::getInt1Ty(C);
    VoidT = Type::getVoidTy(C); Null = ConstantPointerNull::get(P);
    auto G = [&](const char *n, Type *T) { auto *g = M.getGlobalVariable(n); if (!g) g = new GlobalVariable(M, T, false, GlobalValue::ExternalLinkage, nullptr, n); return g; };
    gArgs = G("sx_args", ArrayType::get(P, MAXA)); gRets = G("sx_rets", ArrayType::get(P, MAXA));
    gCallee = G("sx_callee", P); gRetFn = G("sx_retfn", P);
  }
  FunctionCallee fn(const char *n, Type *R, ArrayRef<Type *> A) { return M.getOrInsertFunction(n, FunctionType::get(R, A, false)); }

  static bool isInt(Type *T) { return T->isIntegerTy() && T->getIntegerBitWidth() <= 128; }
  void leafTypes(Type *T, std::vector<Type *> &o) {
    if (auto *S = dyn_cast<StructType>(T)) { for (Type *E : S->elements()) leafTypes(E, o); }
    else if (auto *A = dyn_cast<ArrayType>(T)) { for (unsigned i = 0; i < A->getNumElements(); ++i) leafTypes(A->getElementType(), o); }
    else o.push_back(T);
  }
  unsigned nLeaves(Type *T) { std::vector<Type *> o; leafTypes(T, o); return o.size(); }
  std::pair<unsigned, unsigned> leafRange(Type *T, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned k : idx) {
      if (auto *S = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < k; ++i) off += nLeaves(S->getElementType(i)); T = S->getElementType(k); }
      else { auto *A = cast<ArrayType>(T); off += k * nLeaves(A->getElementType()); T = A->getElementType(); }
    }
    return {off, nLeaves(T)};
  }

  // per function
  DenseMap<Value *, std::vector<Value *>> sh;
  bool tracked(Type *T) { if (isInt(T)) return true; if (T->isAggregateType()) { std::vector<Type *> o; leafTypes(T, o); if (o.size() > 16) return false; for (Type *t : o) if (isInt(t)) return true; } return false; }
  std::vector<Value *> leaves(Value *V) {
    auto it = sh.find(V);
    if (it != sh.end()) return it->second;
    unsigned n = V->getType()->isAggregateType() ? nLeaves(V->getType()) : 1;
    return std::vector<Value *>(n, Null);
  }
  Value *s(Value *V) { auto l = leaves(V); return l.empty() ? Null : l[0]; }
  void set(Value *V, Value *S) { sh[V] = {S}; }
  // concrete operand passed as lo/hi 64-bit
  Value *lo(IRBuilder<> &B, Value *V) { unsigned w = V->getType()->getIntegerBitWidth(); if (w == 64) return V; if (w < 64) return B.CreateZExt(V, I64); return B.CreateTrunc(V, I64); }
  Value *hi(IRBuilder<> &B, Value *V) { unsigned w = V->getType()->getIntegerBitWidth(); if (w <= 64) return ConstantInt::get(I64, 0); Type *T128 = Type::getInt128Ty(C); Value *X = w < 128 ? B.CreateZExt(V, T128) : V; return B.CreateTrunc(B.CreateLShr(X, 64), I64); }
  ConstantInt *c64(uint64_t v) { return ConstantInt::get(I64, v); }
  ConstantInt *c32(uint32_t v) { return ConstantInt::get(I32, v); }

  Value *bin(IRBuilder<> &B, unsigned op, Value *A, Value *D) {
    Value *sa = s(A), *sb = s(D);
    if (sa == Null && sb == Null) return Null;
    unsigned w = A->getType()->getIntegerBitWidth();
    if (w <= 64) {
      return B.CreateCall(fn("sx_bin", P, {I32, I32, P, I64, P, I64}), {c32(op), c32(w), sa, lo(B, A), sb, lo(B, D)});
    }
    return B.CreateCall(fn("sx_bin128", P, {I32, I32, P, I64, I64, P, I64, I64}), {c32(op), c32(w), sa, lo(B, A), hi(B, A), sb, lo(B, D), hi(B, D)});
  }
  Value *cast_(IRBuilder<> &B, unsigned op, Value *A, unsigned w2) {
    Value *sa = s(A); if (sa == Null) return Null;
    return B.CreateCall(fn("sx_cast", P, {I32, P, I32, I32}), {c32(op), sa, c32(A->getType()->getIntegerBitWidth()), c32(w2)});
  }
  // ops (keep in sync with rt)
  enum { ADD = 1, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR, SMAX, SMIN, UMAX, UMIN,
         ADDO_S, ADDO_U, SUBO_S, SUBO_U, MULO_S, MULO_U, ICMP_BASE = 64, ORDISJ = 40, USUBSAT = 41, UADDSAT = 42 };
  enum { ZEXT = 1, SEXT, TRUNC };

  void checkAddr(IRBuilder<> &B, Value *Ptr) {}

  void storeShadow(IRBuilder<> &B, Value *Ptr, Type *T, ArrayRef<Value *> lv) {
    if (isInt(T)) {
      uint64_t sz = DL.getTypeStoreSize(T);
      if (lv[0] == Null) B.CreateCall(fn("sx_clear", VoidT, {P, I64}), {Ptr, c64(sz)});
      else B.CreateCall(fn("sx_store", VoidT, {P, I32, P}), {Ptr, c32(T->getIntegerBitWidth()), lv[0]});
      return;
    }
    B.CreateCall(fn("sx_clear", VoidT, {P, I64}), {Ptr, c64(DL.getTypeStoreSize(T))});
    if (T->isAggregateType()) {
      unsigned k = 0; storeAgg(B, Ptr, T, 0, lv, k);
    }
  }
  void storeAgg(IRBuilder<> &B, Value *Ptr, Type *T, uint64_t off, ArrayRef<Value *> lv, unsigned &k) {
    if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) storeAgg(B, Ptr, S->getElementType(i), off + L->getElementOffset(i), lv, k); return; }
    if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t es = DL.getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); ++i) storeAgg(B, Ptr, A->getElementType(), off + i * es, lv, k); return; }
    Value *v = lv[k++];
    if (isInt(T) && v != Null) B.CreateCall(fn("sx_store", VoidT, {P, I32, P}), {B.CreateGEP(I8, Ptr, c64(off)), c32(T->getIntegerBitWidth()), v});
  }
  void loadAgg(IRBuilder<> &B, Value *Ptr, Type *T, uint64_t off, Value *Agg, std::vector<unsigned> &idx, std::vector<Value *> &out) {
    if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) { idx.push_back(i); loadAgg(B, Ptr, S->getElementType(i), off + L->getElementOffset(i), Agg, idx, out); idx.pop_back(); } return; }
    if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t es = DL.getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); ++i) { idx.push_back(i); loadAgg(B, Ptr, A->getElementType(), off + i * es, Agg, idx, out); idx.pop_back(); } return; }
    if (!isInt(T)) { out.push_back(Null); return; }
    Value *ev = idx.empty() ? Agg : B.CreateExtractValue(Agg, idx);
    out.push_back(B.CreateCall(fn("sx_load", P, {P, I32, I64, I64}), {B.CreateGEP(I8, Ptr, c64(off)), c32(T->getIntegerBitWidth()), lo(B, ev), hi(B, ev)}));
  }

  void concretize(IRBuilder<> &B, Value *V, unsigned why) {
    Value *sv = s(V); if (sv == Null || !isInt(V->getType())) return;
    B.CreateCall(fn("sx_concretize", VoidT, {P, I32, I64, I64, I32}), {sv, c32(V->getType()->getIntegerBitWidth()), lo(B, V), hi(B, V), c32(why)});
  }
  void branchOn(IRBuilder<> &B, Value *Cond, unsigned site) {
    Value *sc = s(Cond); if (sc == Null) return;
    B.CreateCall(fn("sx_branch", VoidT, {P, I32, I64}), {sc, B.CreateZExt(Cond, I32), c64(site)});
  }

  static uint64_t siteCounter;

  bool extIgnored(StringRef n) {
    return startsWith(n, "_ZNSo") || startsWith(n, "_ZStls") || startsWith(n, "printf") || startsWith(n, "fprintf");
  }
  bool extConcretize(Function *F) {
    if (!F || !F->isDeclaration()) return false;
    StringRef n = F->getName();
    if (startsWith(n, "sx_") || startsWith(n, "llvm.")) return false;
    if (extIgnored(n)) return false;
    if (n == "rand" || n == "random") return false; // a harness may define them (symbolic draws)
    if (startsWith(n, "_ZNSt") || startsWith(n, "_ZSt") || startsWith(n, "_ZNKSt") || startsWith(n, "_Znw") || startsWith(n, "_Zna") || !startsWith(n, "_Z")) return true;
    return false;
  }

  void runOn(Function &F) {
    sh.clear();
    std::vector<Instruction *> insts;
    for (auto &BB : F) for (auto &I : BB) insts.push_back(&I);
    // split unwind/normal edges for invokes whose normal dest has several preds
    std::vector<InvokeInst *> invs;
    for (auto *I : insts) if (auto *V = dyn_cast<InvokeInst>(I)) if (tracked(V->getType())) invs.push_back(V);
    for (auto *V : invs) { BasicBlock *N = V->getNormalDest(); if (!N->getSinglePredecessor()) { SplitEdge(V->getParent(), N); } }
    // arguments
    {
      BasicBlock &E = F.getEntryBlock();
      IRBuilder<> B(&*E.getFirstNonPHIOrDbgOrAlloca());
      bool any = false; for (auto &A : F.args()) if (tracked(A.getType())) any = true;
      if (any) {
        Value *valid = B.CreateICmpEQ(B.CreateLoad(P, gCallee), &F);
        unsigned k = 0;
        for (auto &A : F.args()) {
          if (tracked(A.getType())) {
            unsigned n = A.getType()->isAggregateType() ? nLeaves(A.getType()) : 1;
            std::vector<Value *> l;
            for (unsigned i = 0; i < n; ++i) { if (k >= MAXA) { l.push_back(Null); continue; } Value *x = B.CreateLoad(P, B.CreateConstGEP2_32(gArgs->getValueType(), gArgs, 0, k++)); l.push_back(B.CreateSelect(valid, x, Null)); }
            sh[&A] = l;
          }
        }
        B.CreateStore(Null, gCallee);
      }
      B.CreateCall(fn("sx_enter", VoidT, {P, P}), {nameOf(F), counterOf(F)});
      for (auto &I : E) if (auto *AI = dyn_cast<AllocaInst>(&I)) if (AI->isStaticAlloca()) {
        auto sz = AI->getAllocationSize(DL); if (sz) { B.CreateCall(fn("sx_clear", VoidT, {P, I64}), {AI, c64(sz->getFixedValue())}); }
      }
      // dynamic allocas are cleared where they occur
    }
    // phis first
    std::vector<PHINode *> phis;
    for (auto *I : insts) if (auto *PN = dyn_cast<PHINode>(I)) if (isInt(PN->getType())) { IRBuilder<> B(PN); PHINode *sp = B.CreatePHI(P, PN->getNumIncomingValues()); sh[PN] = {sp}; phis.push_back(PN); }
    // NB: visiting in block order may see uses before defs (loops only through phis; dominance otherwise).
    // Use reverse post order to have defs first.
    std::vector<BasicBlock *> order; {
      std::set<BasicBlock *> seen; std::vector<std::pair<BasicBlock *, unsigned>> st; std::vector<BasicBlock *> post;
      st.push_back({&F.getEntryBlock(), 0}); seen.insert(&F.getEntryBlock());
      while (!st.empty()) { auto &t = st.back(); auto *T = t.first->getTerminator(); if (t.second < T->getNumSuccessors()) { BasicBlock *S = T->getSuccessor(t.second++); if (seen.insert(S).second) st.push_back({S, 0}); } else { post.push_back(t.first); st.pop_back(); } }
      order.assign(post.rbegin(), post.rend());
    }
    std::set<Instruction *> orig(insts.begin(), insts.end());
    std::vector<Instruction *> seq; for (auto *BB : order) for (auto &I : *BB) if (orig.count(&I)) seq.push_back(&I);
    for (auto *I : seq) visit(*I);
    for (auto *PN : phis) { auto *sp = cast<PHINode>(sh[PN][0]); for (unsigned i = 0; i < PN->getNumIncomingValues(); ++i) sp->addIncoming(s(PN->getIncomingValue(i)), PN->getIncomingBlock(i)); }
  }
  std::map<std::string, Constant *> names;
  Constant *nameOf(Function &F) {
    auto it = names.find(F.getName().str()); if (it != names.end()) return it->second;
    Constant *D = ConstantDataArray::getString(C, F.getName()); auto *G = new GlobalVariable(M, D->getType(), true, GlobalValue::PrivateLinkage, D); names[F.getName().str()] = G; return G;
  }
  Constant *counterOf(Function &F) { return new GlobalVariable(M, I8, false, GlobalValue::PrivateLinkage, ConstantInt::get(I8, 0)); }

  void visit(Instruction &I) {
    IRBuilder<> A(&I); // after-ish builder
    auto after = [&]() { Instruction *N = I.getNextNode(); return IRBuilder<>(N); };
    if (isa<PHINode>(I)) return;
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      if (!isInt(I.getType())) { return; }
      unsigned op = 0;
      switch (BO->getOpcode()) {
      case Instruction::Add: op = ADD; break; case Instruction::Sub: op = SUB; break; case Instruction::Mul: op = MUL; break;
      case Instruction::UDiv: op = UDIV; break; case Instruction::SDiv: op = SDIV; break; case Instruction::URem: op = UREM; break; case Instruction::SRem: op = SREM; break;
      case Instruction::Shl: op = SHL; break; case Instruction::LShr: op = LSHR; break; case Instruction::AShr: op = ASHR; break;
      case Instruction::And: op = AND; break; case Instruction::Or: op = OR; break; case Instruction::Xor: op = XOR; break;
      default: return; }
      if (op == OR) if (auto *PD = dyn_cast<PossiblyDisjointInst>(BO)) if (PD->isDisjoint() && I.getType() != I1) op = ORDISJ;
      IRBuilder<> B(&I);                       // before: division by zero must be noticed before the trap
      Value *r = bin(B, op, BO->getOperand(0), BO->getOperand(1));
      if (r != Null) set(&I, r);
      return;
    }
    if (auto *CI = dyn_cast<ICmpInst>(&I)) {
      Value *X = CI->getOperand(0), *Y = CI->getOperand(1);
      if (!isInt(X->getType())) return;
      IRBuilder<> B = after();
      Value *r = bin(B, ICMP_BASE + CI->getPredicate(), X, Y);
      if (r != Null) set(&I, r);
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(&I)) {
      Value *X = CI->getOperand(0);
      if (isInt(X->getType()) && isInt(I.getType())) {
        unsigned op = CI->getOpcode() == Instruction::ZExt ? ZEXT : CI->getOpcode() == Instruction::SExt ? SEXT : CI->getOpcode() == Instruction::Trunc ? TRUNC : 0;
        if (op) { IRBuilder<> B = after(); Value *r = cast_(B, op, X, I.getType()->getIntegerBitWidth()); if (r != Null) set(&I, r); return; }
        if (CI->getOpcode() == Instruction::BitCast) { set(&I, s(X)); return; }
      }
      if (isInt(X->getType())) { IRBuilder<> B(&I); concretize(B, X, 1); } // int->fp, int->ptr
      return;
    }
    if (auto *SI = dyn_cast<SelectInst>(&I)) {
      Value *Cn = SI->getCondition();
      if (Cn->getType() != I1) return;
      if (isInt(I.getType())) {
        Value *sc = s(Cn), *st = s(SI->getTrueValue()), *sf = s(SI->getFalseValue());
        if (sc == Null && st == Null && sf == Null) return;
        IRBuilder<> B = after();
        if (sc == Null) { set(&I, B.CreateSelect(Cn, st, sf)); return; }
        Value *T = SI->getTrueValue(), *Fv = SI->getFalseValue();
        Value *r = B.CreateCall(fn("sx_select", P, {I32, P, I32, P, I64, I64, P, I64, I64}),
          {c32(I.getType()->getIntegerBitWidth()), sc, B.CreateZExt(Cn, I32), st, lo(B, T), hi(B, T), sf, lo(B, Fv), hi(B, Fv)});
        set(&I, r);
      } else {
        IRBuilder<> B(&I); branchOn(B, Cn, ++siteCounter);
        if (I.getType()->isAggregateType() && tracked(I.getType())) { auto a = leaves(SI->getTrueValue()), b = leaves(SI->getFalseValue()); IRBuilder<> B2 = after(); std::vector<Value *> l; for (size_t i = 0; i < a.size(); ++i) l.push_back(B2.CreateSelect(Cn, a[i], b[i])); sh[&I] = l; }
      }
      return;
    }
    if (isa<FreezeInst>(I)) { sh[&I] = leaves(I.getOperand(0)); return; }
    if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
      if (!tracked(EV->getAggregateOperand()->getType())) return;
      auto l = leaves(EV->getAggregateOperand()); auto r = leafRange(EV->getAggregateOperand()->getType(), EV->getIndices());
      sh[&I] = std::vector<Value *>(l.begin() + r.first, l.begin() + r.first + r.second); return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
      if (!tracked(I.getType())) return;
      auto l = leaves(IV->getAggregateOperand()); auto v = leaves(IV->getInsertedValueOperand()); auto r = leafRange(I.getType(), IV->getIndices());
      for (unsigned i = 0; i < r.second; ++i) l[r.first + i] = v[i];
      sh[&I] = l; return;
    }
    if (auto *GE = dyn_cast<GetElementPtrInst>(&I)) {
      IRBuilder<> B(&I);
      for (auto &x : GE->indices()) if (isInt(x->getType())) concretize(B, x, 2);
      return;
    }
    if (auto *LI = dyn_cast<LoadInst>(&I)) {
      Type *T = I.getType();
      if (isInt(T)) { IRBuilder<> B = after(); set(&I, B.CreateCall(fn("sx_load", P, {P, I32, I64, I64}), {LI->getPointerOperand(), c32(T->getIntegerBitWidth()), lo(B, &I), hi(B, &I)})); }
      else if (T->isAggregateType() && tracked(T)) { IRBuilder<> B = after(); std::vector<unsigned> idx; std::vector<Value *> out; loadAgg(B, LI->getPointerOperand(), T, 0, &I, idx, out); sh[&I] = out; }
      else if (T->isVectorTy()) { IRBuilder<> B = after(); B.CreateCall(fn("sx_vecload", VoidT, {P, I64}), {LI->getPointerOperand(), c64(DL.getTypeStoreSize(T))}); }
      return;
    }
    if (auto *ST = dyn_cast<StoreInst>(&I)) {
      IRBuilder<> B = after(); Value *V = ST->getValueOperand();
      storeShadow(B, ST->getPointerOperand(), V->getType(), leaves(V)); return;
    }
    if (auto *X = dyn_cast<AtomicRMWInst>(&I)) { IRBuilder<> B(&I); B.CreateCall(fn("sx_clear", VoidT, {P, I64}), {X->getPointerOperand(), c64(DL.getTypeStoreSize(X->getValOperand()->getType()))}); return; }
    if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) { IRBuilder<> B(&I); B.CreateCall(fn("sx_clear", VoidT, {P, I64}), {X->getPointerOperand(), c64(DL.getTypeStoreSize(X->getNewValOperand()->getType()))}); return; }
    if (auto *AI = dyn_cast<AllocaInst>(&I)) {
      if (!AI->isStaticAlloca()) { IRBuilder<> B = after(); uint64_t es = DL.getTypeAllocSize(AI->getAllocatedType()); concretize(B, AI->getArraySize(), 3); B.CreateCall(fn("sx_clear", VoidT, {P, I64}), {AI, B.CreateMul(B.CreateZExtOrTrunc(AI->getArraySize(), I64), c64(es))}); }
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(&I)) { if (Br->isConditional()) { IRBuilder<> B(&I); branchOn(B, Br->getCondition(), ++siteCounter); } return; }
    if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
      Value *Cn = Sw->getCondition(); if (s(Cn) == Null) return;
      IRBuilder<> B(&I); // fork on each case comparison in turn
      unsigned n = Sw->getNumCases(); std::vector<Constant *> cs; for (auto &c : Sw->cases()) cs.push_back(ConstantInt::get(I64, c.getCaseValue()->getValue().zextOrTrunc(64)));
      ArrayType *AT = ArrayType::get(I64, n); auto *G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, cs));
      B.CreateCall(fn("sx_switch", VoidT, {P, I32, I64, P, I32, I64}), {s(Cn), c32(Cn->getType()->getIntegerBitWidth()), lo(B, Cn), G, c32(n), c64(++siteCounter)});
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(&I)) {
      IRBuilder<> B(&I); Value *V = R->getReturnValue();
      if (V && tracked(V->getType())) {
        auto l = leaves(V); unsigned k = 0; for (auto *x : l) if (k < MAXA) B.CreateStore(x, B.CreateConstGEP2_32(gRets->getValueType(), gRets, 0, k++));
        B.CreateStore(I.getFunction(), gRetFn);
      }
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) { visitCall(*CB); return; }
  }

  void visitCall(CallBase &I) {
    Function *F = I.getCalledFunction();
    if (I.isInlineAsm()) { IRBuilder<> B(&I); for (auto &a : I.args()) if (isInt(a->getType())) concretize(B, a, 4); return; }
    if (F && F->isIntrinsic()) {
      Instruction *N = isa<InvokeInst>(I) ? nullptr : I.getNextNode();
      IRBuilder<> B(N ? N : &I);
      auto two = [&](unsigned op) { if (isInt(I.getType())) { Value *r = bin(B, op, I.getArgOperand(0), I.getArgOperand(1)); if (r != Null) set(&I, r); } };
      auto ovf = [&](unsigned op, unsigned oop) { if (!isInt(I.getArgOperand(0)->getType())) return; Value *a = bin(B, op, I.getArgOperand(0), I.getArgOperand(1)); if (a == Null) return; Value *o = bin(B, oop, I.getArgOperand(0), I.getArgOperand(1)); sh[&I] = {a, o}; };
      switch (F->getIntrinsicID()) {
      case Intrinsic::sadd_with_overflow: ovf(ADD, ADDO_S); return; case Intrinsic::uadd_with_overflow: ovf(ADD, ADDO_U); return;
      case Intrinsic::ssub_with_overflow: ovf(SUB, SUBO_S); return; case Intrinsic::usub_with_overflow: ovf(SUB, SUBO_U); return;
      case Intrinsic::smul_with_overflow: ovf(MUL, MULO_S); return; case Intrinsic::umul_with_overflow: ovf(MUL, MULO_U); return;
      case Intrinsic::smax: two(SMAX); return; case Intrinsic::smin: two(SMIN); return; case Intrinsic::umax: two(UMAX); return; case Intrinsic::umin: two(UMIN); return;
      case Intrinsic::usub_sat: two(USUBSAT); return; case Intrinsic::uadd_sat: two(UADDSAT); return;
      case Intrinsic::expect: case Intrinsic::ssa_copy: sh[&I] = leaves(I.getArgOperand(0)); return;
      case Intrinsic::abs: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::bitreverse: {
        Value *x = I.getArgOperand(0); if (!isInt(x->getType()) || s(x) == Null) return;
        unsigned k = F->getIntrinsicID() == Intrinsic::abs ? 1 : F->getIntrinsicID() == Intrinsic::ctlz ? 2 : F->getIntrinsicID() == Intrinsic::cttz ? 3 : F->getIntrinsicID() == Intrinsic::ctpop ? 4 : 5;
        set(&I, B.CreateCall(fn("sx_un", P, {I32, I32, P, I64, I64}), {c32(k), c32(x->getType()->getIntegerBitWidth()), s(x), lo(B, x), hi(B, x)})); return; }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        if (!isInt(I.getType()) || I.getType()->getIntegerBitWidth() > 64) return; Value *a = I.getArgOperand(0), *b = I.getArgOperand(1), *c = I.getArgOperand(2); if (s(a) == Null && s(b) == Null && s(c) == Null) return;
        concretize(B, c, 5);
        set(&I, B.CreateCall(fn("sx_fsh", P, {I32, I32, P, I64, P, I64, I64}), {c32(F->getIntrinsicID() == Intrinsic::fshl ? 0 : 1), c32(I.getType()->getIntegerBitWidth()), s(a), lo(B, a), s(b), lo(B, b), lo(B, c)})); return; }
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { IRBuilder<> B0(&I); concretize(B0, I.getArgOperand(2), 6); B0.CreateCall(fn("sx_memmove", VoidT, {P, P, I64}), {I.getArgOperand(0), I.getArgOperand(1), B0.CreateZExtOrTrunc(I.getArgOperand(2), I64)}); return; }
      case Intrinsic::memset: case Intrinsic::memset_inline: { IRBuilder<> B0(&I); concretize(B0, I.getArgOperand(2), 6); concretize(B0, I.getArgOperand(1), 6); B0.CreateCall(fn("sx_clear", VoidT, {P, I64}), {I.getArgOperand(0), B0.CreateZExtOrTrunc(I.getArgOperand(2), I64)}); return; }
      case Intrinsic::lifetime_start: { // stack colouring lets allocas share memory
        auto *AI = dyn_cast<AllocaInst>(I.getArgOperand(1)->stripPointerCasts()); if (!AI) return; auto sz = AI->getAllocationSize(DL); if (sz) { IRBuilder<> B0(&I); Instruction *Nx = I.getNextNode(); IRBuilder<> B1(Nx); B1.CreateCall(fn("sx_clear", VoidT, {P, I64}), {AI, c64(sz->getFixedValue())}); } return; }
      case Intrinsic::assume: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::eh_typeid_for: case Intrinsic::stackrestore: case Intrinsic::stacksave: case Intrinsic::umul_with_overflow + 0x10000: return;
      default: { IRBuilder<> B0(&I); for (auto &a : I.args()) if (isInt(a->getType()) && !isa<Constant>(a)) concretize(B0, a, 7); return; }
      }
    }
    if (F && F->getName().starts_with("sx_") && !F->getName().starts_with("sx_w_") ) {
      // engine API: int arguments' shadows go through sx_args, result through sx_rets
    }
    IRBuilder<> B(&I);
    if (F && extIgnored(F->getName())) return;
    if (F && F->getName().starts_with("__gmp")) { // unsupported GMP entry: concretise any symbolic operand, forget results
      for (auto &a : I.args()) { if (a->getType()->isPointerTy()) B.CreateCall(fn("sx_gmp_unsup", VoidT, {P, P}), {a, nameOf(*F)}); else if (isInt(a->getType())) concretize(B, a, 8); }
      return;
    }
    if (extConcretize(F)) { for (auto &a : I.args()) if (isInt(a->getType())) concretize(B, a, 9); return; }
    unsigned k = 0; bool any = false;
    for (auto &a : I.args()) if (tracked(a->getType())) { any = true; for (auto *x : leaves(a)) { if (k < MAXA) B.CreateStore(x, B.CreateConstGEP2_32(gArgs->getValueType(), gArgs, 0, k)); ++k; } }
    Value *cv = I.getCalledOperand();
    if (any) B.CreateStore(cv, gCallee);
    if (tracked(I.getType())) {
      B.CreateStore(Null, gRetFn);
      Instruction *N; if (auto *V = dyn_cast<InvokeInst>(&I)) N = &*V->getNormalDest()->getFirstInsertionPt(); else N = I.getNextNode();
      IRBuilder<> Ba(N);
      Value *valid = Ba.CreateICmpEQ(Ba.CreateLoad(P, gRetFn), cv);
      unsigned n = I.getType()->isAggregateType() ? nLeaves(I.getType()) : 1; std::vector<Value *> l;
      for (unsigned i = 0; i < n; ++i) l.push_back(Ba.CreateSelect(valid, Ba.CreateLoad(P, Ba.CreateConstGEP2_32(gRets->getValueType(), gRets, 0, i)), Null));
      sh[&I] = l;
    }
  }
};
uint64_t Inst::siteCounter = 0;

struct SxInst : PassInfoMixin<SxInst> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Inst X(M);
    Inst::siteCounter = (std::hash<std::string>()(M.getSourceFileName()) & 0xffff) << 24;
    std::vector<Function *> fs;
    for (Function &F : M) if (!F.isDeclaration() && !F.getName().starts_with("sx_") && !F.hasAvailableExternallyLinkage() && !F.getName().starts_with("_GLOBAL__") && !F.getName().starts_with("__cxx_global") && !F.getName().starts_with("__clang_call_terminate")) fs.push_back(&F);
    // an oversized shift is poison; the optimizer may speculate one whose result is not used.  Reduce the
    // amount (what the hardware does) so that every run of a path computes the same value.
    for (auto *F : fs) for (auto &B : *F) for (auto &I : B)
      if (I.isShift() && !isa<Constant>(I.getOperand(1)) && I.getType()->isIntegerTy()) {
        unsigned w = I.getType()->getIntegerBitWidth(); if (w & (w - 1)) continue;
        IRBuilder<> Bs(&I); I.setOperand(1, Bs.CreateAnd(I.getOperand(1), ConstantInt::get(I.getType(), w - 1)));
      }
    for (auto *F : fs) X.runOn(*F);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "sxpass", "1", [](PassBuilder &PB) {
    PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SxPre()); });
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
      MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass()));
      MPM.addPass(SxInst()); });
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) { if (N == "sxpre") { MPM.addPass(SxPre()); return true; } if (N == "sxinst") { MPM.addPass(SxInst()); return true; } return false; });
  }};
}
