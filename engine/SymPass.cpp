// SymPass: LLVM 18 pass plugin that turns a linked bitcode module of the code under test into a
// symbolically executing one.
//
//  * every floating point operation / comparison / conversion / libm call becomes a call into the
//    runtime (rt.cpp).  Symbolic floating point values travel in-band as NaN-boxed handles, so they
//    flow through memory, std::vector, std::sort, exceptions, ... unchanged.
//  * with SYM_INT=1 every integer/pointer value additionally gets a shadow expression handle (u32),
//    with shadow memory kept by the runtime (bit-precise symbolic integers, bytes and pointers).
//
// Functions whose name starts with "__sym" or "sym_" (the harness API) are declared in the module and
// defined, uninstrumented, in the runtime.
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <cstdlib>
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {

static const char *LIBM1[] = {"exp","exp2","expm1","log","log2","log10","log1p","sqrt","cbrt","fabs","floor","ceil","trunc","round","rint","nearbyint",
                              "lgamma","tgamma","sin","cos","tan","erf","erfc","sinh","cosh","tanh","exp10","gamma"};
static const char *LIBM2[] = {"pow","fmod","fmax","fmin","hypot","copysign","fdim","atan2"};

struct Ctx {
  Module &M;
  bool ints;
  LLVMContext &C;
  Type *I1, *I8, *I32, *I64, *F, *D, *X, *V, *P;
  GlobalVariable *argSh = nullptr, *retSh = nullptr;
  std::set<Function *> orig; // instrumented definitions
  Ctx(Module &M, bool ints) : M(M), ints(ints), C(M.getContext()) {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    F = Type::getFloatTy(C); D = Type::getDoubleTy(C); X = Type::getX86_FP80Ty(C); V = Type::getVoidTy(C); P = PointerType::get(C, 0);
  }
  bool isFP(Type *T) { return T == F || T == D || T == X; }
  const char *sfx(Type *T) { return T == F ? "f" : T == D ? "d" : "x"; }
  FunctionCallee fn(const std::string &n, Type *R, ArrayRef<Type *> A) { return M.getOrInsertFunction(n, FunctionType::get(R, A, false)); }
  Value *i32(unsigned v) { return ConstantInt::get(I32, v); }
};

// ------------------------------------------------------------------ floating point
struct FPInstrument {
  Ctx &X;
  DenseMap<Value *, Value *> *shadow; // only in int mode
  unsigned unsupported = 0;
  FPInstrument(Ctx &X) : X(X), shadow(nullptr) {}

  void unsup(Instruction &I) {
    ++unsupported;
    errs() << "SymPass: unsupported FP instruction: " << I << " in " << I.getFunction()->getName() << "\n";
  }

  static int fbin(unsigned op) {
    switch (op) {
    case Instruction::FAdd: return 0;
    case Instruction::FSub: return 1;
    case Instruction::FMul: return 2;
    case Instruction::FDiv: return 3;
    case Instruction::FRem: return 4;
    }
    return -1;
  }

  Value *call(IRBuilder<> &B, const std::string &n, Type *R, ArrayRef<Value *> A) {
    std::vector<Type *> T;
    for (auto *a : A) T.push_back(a->getType());
    return B.CreateCall(X.fn(n, R, T), A);
  }

  Value *binop(IRBuilder<> &B, int op, Value *a, Value *b) {
    Type *T = a->getType();
    if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      Value *R = PoisonValue::get(T);
      for (unsigned i = 0; i < VT->getNumElements(); ++i)
        R = B.CreateInsertElement(R, binop(B, op, B.CreateExtractElement(a, i), B.CreateExtractElement(b, i)), i);
      return R;
    }
    return call(B, std::string("__sym_bin_") + X.sfx(T), T, {X.i32(op), a, b});
  }

  // returns true if the instruction was replaced
  void run(Function &Fn) {
    std::vector<Instruction *> work;
    for (auto &I : instructions(Fn)) work.push_back(&I);
    for (auto *I : work) visit(*I);
  }

  void repl(Instruction &I, Value *v) {
    I.replaceAllUsesWith(v);
    if (v->getType() != X.V && isa<Instruction>(v)) v->takeName(&I);
    I.eraseFromParent();
  }

  void visit(Instruction &I) {
    IRBuilder<> B(&I);
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      int op = fbin(BO->getOpcode());
      if (op < 0) return;
      Type *ST = I.getType()->getScalarType();
      if (!X.isFP(ST)) { unsup(I); return; }
      repl(I, binop(B, op, BO->getOperand(0), BO->getOperand(1)));
      return;
    }
    if (auto *UO = dyn_cast<UnaryOperator>(&I)) {
      if (UO->getOpcode() != Instruction::FNeg) return;
      if (!X.isFP(I.getType())) { unsup(I); return; }
      repl(I, call(B, std::string("__sym_neg_") + X.sfx(I.getType()), I.getType(), {UO->getOperand(0)}));
      return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(&I)) {
      Type *T = FC->getOperand(0)->getType();
      if (!X.isFP(T)) { unsup(I); return; }
      unsigned fl = (FC->hasNoNaNs() ? 1 : 0) | (FC->hasNoInfs() ? 2 : 0);
      Value *r = call(B, std::string("__sym_cmp_") + X.sfx(T), X.I32, {X.i32(FC->getPredicate()), FC->getOperand(0), FC->getOperand(1), X.i32(fl)});
      repl(I, B.CreateTrunc(r, X.I1));
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(&I)) {
      Type *S = CI->getSrcTy(), *T = CI->getDestTy();
      switch (CI->getOpcode()) {
      case Instruction::FPExt:
      case Instruction::FPTrunc:
        if (!X.isFP(S) || !X.isFP(T)) { unsup(I); return; }
        repl(I, call(B, std::string("__sym_cvt_") + X.sfx(S) + X.sfx(T), T, {CI->getOperand(0)}));
        return;
      case Instruction::SIToFP:
      case Instruction::UIToFP: {
        if (!X.isFP(T) || !S->isIntegerTy() || S->getIntegerBitWidth() > 64) { unsup(I); return; }
        bool sg = CI->getOpcode() == Instruction::SIToFP;
        Value *v = sg ? B.CreateSExt(CI->getOperand(0), X.I64) : B.CreateZExt(CI->getOperand(0), X.I64);
        Value *sh = X.i32(0);
        if (shadow) { auto it = shadow->find(CI->getOperand(0)); if (it != shadow->end()) sh = it->second; }
        repl(I, call(B, std::string("__sym_i2") + X.sfx(T), T, {v, X.i32(S->getIntegerBitWidth()), X.i32(sg), sh}));
        return;
      }
      case Instruction::FPToSI:
      case Instruction::FPToUI: {
        if (!X.isFP(S) || !T->isIntegerTy() || T->getIntegerBitWidth() > 64) { unsup(I); return; }
        bool sg = CI->getOpcode() == Instruction::FPToSI;
        Value *r = call(B, std::string("__sym_") + X.sfx(S) + "2i", X.I64, {CI->getOperand(0), X.i32(T->getIntegerBitWidth()), X.i32(sg)});
        Value *t = B.CreateTrunc(r, T);
        if (shadow) (*shadow)[t] = B.CreateLoad(X.I32, X.retSh);
        repl(I, t);
        return;
      }
      case Instruction::BitCast:
        if (S == X.D && T == X.I64) {
          Value *r = call(B, "__sym_unbox", X.I64, {B.CreateBitCast(CI->getOperand(0), X.I64)});
          if (shadow) (*shadow)[r] = B.CreateLoad(X.I32, X.retSh);
          repl(I, r);
          return;
        }
        if (S == X.I64 && T == X.D && shadow) {
          auto it = shadow->find(CI->getOperand(0));
          if (it != shadow->end()) {
            Value *raw = B.CreateBitCast(CI->getOperand(0), X.D);
            repl(I, call(B, "__sym_frombits", X.D, {raw, it->second}));
          }
          return;
        }
        return;
      default: return;
      }
    }
    if (auto *LI = dyn_cast<LoadInst>(&I)) {
      if (!X.ints && LI->getType() == X.I64) {
        // type punning of a (possibly boxed) double: the runtime maps a box to the bits of a finite double
        B.SetInsertPoint(LI->getNextNode());
        Value *r = call(B, "__sym_unbox", X.I64, {LI});
        LI->replaceUsesWithIf(r, [&](Use &U) { return U.getUser() != r; });
      }
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) { visitCall(*CB); return; }
  }

  void visitCall(CallBase &CB) {
    Function *F = CB.getCalledFunction();
    if (!F || !F->isIntrinsic()) return;
    IRBuilder<> B(&CB);
    std::string s;
    auto T = CB.getType();
    auto m1 = [&](const char *n) { if (!X.isFP(T)) { unsup(CB); return; } repl(CB, call(B, std::string("__sym_m_") + n + "_" + X.sfx(T), T, {CB.getArgOperand(0)})); };
    auto m2 = [&](const char *n) { if (!X.isFP(T)) { unsup(CB); return; } repl(CB, call(B, std::string("__sym_m_") + n + "_" + X.sfx(T), T, {CB.getArgOperand(0), CB.getArgOperand(1)})); };
    switch (F->getIntrinsicID()) {
    case Intrinsic::exp: m1("exp"); return;
    case Intrinsic::exp2: m1("exp2"); return;
    case Intrinsic::log: m1("log"); return;
    case Intrinsic::log2: m1("log2"); return;
    case Intrinsic::log10: m1("log10"); return;
    case Intrinsic::sqrt: m1("sqrt"); return;
    case Intrinsic::fabs: m1("fabs"); return;
    case Intrinsic::floor: m1("floor"); return;
    case Intrinsic::ceil: m1("ceil"); return;
    case Intrinsic::trunc: m1("trunc"); return;
    case Intrinsic::round: m1("round"); return;
    case Intrinsic::rint: m1("rint"); return;
    case Intrinsic::nearbyint: m1("nearbyint"); return;
    case Intrinsic::sin: m1("sin"); return;
    case Intrinsic::cos: m1("cos"); return;
    case Intrinsic::pow: m2("pow"); return;
    case Intrinsic::maxnum: case Intrinsic::maximum: m2("fmax"); return;
    case Intrinsic::minnum: case Intrinsic::minimum: m2("fmin"); return;
    case Intrinsic::copysign: m2("copysign"); return;
    case Intrinsic::powi:
      repl(CB, call(B, std::string("__sym_powi_") + X.sfx(T), T, {CB.getArgOperand(0), B.CreateSExtOrTrunc(CB.getArgOperand(1), X.I32)}));
      return;
    case Intrinsic::ldexp:
      repl(CB, call(B, std::string("__sym_ldexp_") + X.sfx(T), T, {CB.getArgOperand(0), B.CreateSExtOrTrunc(CB.getArgOperand(1), X.I32)}));
      return;
    case Intrinsic::fmuladd:
    case Intrinsic::fma: {
      Value *p = binop(B, 2, CB.getArgOperand(0), CB.getArgOperand(1));
      repl(CB, binop(B, 0, p, CB.getArgOperand(2)));
      return;
    }
    case Intrinsic::is_fpclass:
      if (CB.getArgOperand(0)->getType() == X.D || CB.getArgOperand(0)->getType() == X.X || CB.getArgOperand(0)->getType() == X.F)
        repl(CB, B.CreateTrunc(call(B, std::string("__sym_fpclass_") + X.sfx(CB.getArgOperand(0)->getType()), X.I32, {CB.getArgOperand(0), CB.getArgOperand(1)}), X.I1));
      return;
    default:
      if (X.isFP(T)) unsup(CB);
      return;
    }
  }
};

// replace every use of an external function by the runtime's hook
static void renameExternals(Ctx &X) {
  std::map<std::string, std::string> R;
  for (auto *n : LIBM1) {
    R[n] = std::string("__sym_m_") + n + "_d";
    R[std::string(n) + "l"] = std::string("__sym_m_") + n + "_x";
    R[std::string(n) + "f"] = std::string("__sym_m_") + n + "_f";
  }
  for (auto *n : LIBM2) {
    R[n] = std::string("__sym_m_") + n + "_d";
    R[std::string(n) + "l"] = std::string("__sym_m_") + n + "_x";
    R[std::string(n) + "f"] = std::string("__sym_m_") + n + "_f";
  }
  R["lgamma_r"] = "__sym_lgamma_r";
  R["__muldc3"] = "__sym_muldc3"; // may not appear; see rt.cpp
  for (auto *n : {"frexp", "ldexp", "scalbn", "scalbln", "modf", "ilogb", "logb"}) {
    R[n] = std::string("__sym_") + n + "_d";
    R[std::string(n) + "l"] = std::string("__sym_") + n + "_x";
  }
  for (auto *n : {"strtod", "strtold", "atof", "strtol", "strtoll", "atoi", "atol", "posix_memalign", "aligned_alloc", "malloc", "_Znwm", "_Znam", "time", "clock",
                  "fftw_plan_dft_r2c_1d", "fftw_plan_dft_c2r_1d", "fftw_plan_dft_1d", "fftw_execute", "fftw_execute_dft_r2c", "fftw_execute_dft_c2r", "fftw_destroy_plan",
                  "fftw_cleanup", "fftw_malloc", "fftw_free", "fftw_alloc_real", "fftw_alloc_complex", "free", "calloc", "realloc", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"})
    R[n] = std::string("__sym_h_") + n;
  R["__isoc23_strtol"] = R["__isoc23_strtoll"] = "__sym_h_strtol";
  R["_ZNSolsEd"] = "__sym_os_d";
  R["_ZNSolsEe"] = "__sym_os_x";
  R["_ZNSolsEf"] = "__sym_os_f";
  R["_ZNSo9_M_insertIdEERSoT_"] = "__sym_os_d";
  R["_ZNSo9_M_insertIeEERSoT_"] = "__sym_os_x";
  if (X.ints) {
    for (auto *n : {"memcpy", "memmove", "memset", "memcmp", "strlen", "memchr", "strcmp", "isdigit", "isspace", "bcmp", "strchr", "__errno_location"})
      R[n] = std::string("__sym_h_") + n;
  }
  for (auto &kv : R) {
    Function *F = X.M.getFunction(kv.first);
    if (!F || !F->isDeclaration()) continue;
    if (Function *G = X.M.getFunction(kv.second); G && G != F) { F->replaceAllUsesWith(G); F = G; } else F->setName(kv.second);
    F->setAttributes(AttributeList());
    // drop call-site attributes such as readnone: the hook has side effects
    for (auto *U : F->users())
      if (auto *CB = dyn_cast<CallBase>(U))
        if (CB->getCalledOperand() == F) CB->setAttributes(AttributeList());
  }
  // optional: replace the random number generator by the environment stub
  if (const char *s = getenv("SYM_STUB_RNG"); s && *s == '1') {
    for (auto &F : X.M) {
      if (F.isDeclaration()) continue;
      StringRef n = F.getName();
      const char *hook = nullptr;
      if (n.contains("tinymt64_generate_doubleOC")) hook = "__sym_rng_OC";
      else if (n.contains("tinymt64_generate_doubleOO")) hook = "__sym_rng_OO";
      else if (n.contains("tinymt64_generate_double01")) hook = "__sym_rng_CO";
      else if (n.contains("tinymt64_generate_double12")) hook = "__sym_rng_12";
      else if (n.contains("tinymt64_generate_double") && !n.contains("conv")) hook = "__sym_rng_CO";
      if (!hook || F.getReturnType() != X.D) continue;
      F.deleteBody();
      F.setLinkage(GlobalValue::ExternalLinkage);
      F.setVisibility(GlobalValue::DefaultVisibility);
      F.setComdat(nullptr);
      F.setAttributes(AttributeList());
      Function *H = cast<Function>(X.fn(hook, X.D, {X.P}).getCallee());
      F.replaceAllUsesWith(H);
    }
  }
}

// ------------------------------------------------------------------ integers
struct IntInstrument {
  Ctx &X;
  const DataLayout &DL;
  DenseMap<Value *, Value *> sh;
  IntInstrument(Ctx &X) : X(X), DL(X.M.getDataLayout()) {}

  bool tracked(Type *T) { return (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) || T->isPointerTy(); }
  Value *S(Value *V) {
    auto it = sh.find(V);
    return it == sh.end() ? X.i32(0) : it->second;
  }
  bool isZ(Value *v) { auto *c = dyn_cast<ConstantInt>(v); return c && c->isZero(); }
  Value *as64(IRBuilder<> &B, Value *v) {
    if (v->getType()->isPointerTy()) return B.CreatePtrToInt(v, X.I64);
    return B.CreateZExt(v, X.I64);
  }
  unsigned bits(Type *T) { return T->isPointerTy() ? 64 : T->getIntegerBitWidth(); }
  Value *call(IRBuilder<> &B, const std::string &n, Type *R, ArrayRef<Value *> A) {
    std::vector<Type *> T;
    for (auto *a : A) T.push_back(a->getType());
    return B.CreateCall(X.fn(n, R, T), A);
  }
  void concretize(IRBuilder<> &B, Value *v, int why) {
    if (isZ(S(v))) return;
    call(B, "__sym_concretize", X.V, {as64(B, v), S(v), X.i32(bits(v->getType())), X.i32(why)});
  }

  void run(Function &F) {
    sh.clear();
    std::vector<Instruction *> work;
    std::vector<PHINode *> phis;
    for (auto &I : instructions(F)) {
      work.push_back(&I);
    }
    // function entry: read argument shadows
    {
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      unsigned k = 0;
      for (auto &A : F.args()) {
        if (tracked(A.getType()) && k < 32) {
          Value *p = B.CreateConstInBoundsGEP2_32(X.argSh->getValueType(), X.argSh, 0, k);
          sh[&A] = B.CreateLoad(X.I32, p);
          B.CreateStore(X.i32(0), p);
        }
        ++k;
      }
    }
    for (auto *I : work)
      if (auto *P = dyn_cast<PHINode>(I))
        if (tracked(P->getType())) {
          IRBuilder<> B(P);
          PHINode *q = B.CreatePHI(X.I32, P->getNumIncomingValues());
          sh[P] = q;
          phis.push_back(P);
        }
    // Reverse post order so that definitions are seen before uses (back edges only feed phis)
    ReversePostOrderTraversal<Function *> RPOT(&F);
    std::set<Instruction *> want(work.begin(), work.end());
    std::vector<Instruction *> order;
    for (auto *BB : RPOT)
      for (auto &I : *BB)
        if (want.count(&I)) order.push_back(&I);
    for (auto *I : order) visit(*I);
    for (auto *P : phis) {
      PHINode *q = cast<PHINode>(sh[P]);
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) q->addIncoming(S(P->getIncomingValue(i)), P->getIncomingBlock(i));
    }
  }

  void visit(Instruction &I) {
    IRBuilder<> B(&I);
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      if (!tracked(I.getType())) return;
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      if (isZ(S(a)) && isZ(S(b))) return;
      sh[&I] = call(B, "__sym_ibin", X.I32, {X.i32(BO->getOpcode()), X.i32(bits(I.getType())), as64(B, a), S(a), as64(B, b), S(b)});
      return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(&I)) {
      Value *a = IC->getOperand(0), *b = IC->getOperand(1);
      if (!tracked(a->getType()) || (isZ(S(a)) && isZ(S(b)))) return;
      sh[&I] = call(B, "__sym_icmp", X.I32, {X.i32(IC->getPredicate()), X.i32(bits(a->getType())), as64(B, a), S(a), as64(B, b), S(b)});
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(&I)) {
      Value *a = CI->getOperand(0);
      Type *T = CI->getDestTy();
      if (!tracked(a->getType()) || !tracked(T) || isZ(S(a))) return;
      switch (CI->getOpcode()) {
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
        sh[&I] = call(B, "__sym_icast", X.I32, {X.i32(CI->getOpcode() == Instruction::SExt), X.i32(bits(a->getType())), X.i32(bits(T)), S(a)});
        return;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
        sh[&I] = bits(a->getType()) == bits(T) ? S(a) : call(B, "__sym_icast", X.I32, {X.i32(0), X.i32(bits(a->getType())), X.i32(bits(T)), S(a)});
        return;
      default: return;
      }
    }
    if (auto *SI = dyn_cast<SelectInst>(&I)) {
      Value *c = SI->getCondition();
      if (!isZ(S(c))) call(B, "__sym_branch", X.V, {S(c), B.CreateZExt(c, X.I32)});
      if (tracked(I.getType())) {
        Value *a = S(SI->getTrueValue()), *b = S(SI->getFalseValue());
        if (!isZ(a) || !isZ(b)) sh[&I] = B.CreateSelect(c, a, b);
      }
      return;
    }
    if (auto *BR = dyn_cast<BranchInst>(&I)) {
      if (BR->isConditional() && !isZ(S(BR->getCondition()))) call(B, "__sym_branch", X.V, {S(BR->getCondition()), B.CreateZExt(BR->getCondition(), X.I32)});
      return;
    }
    if (auto *SW = dyn_cast<SwitchInst>(&I)) {
      Value *c = SW->getCondition();
      if (!tracked(c->getType()) || isZ(S(c))) return;
      std::vector<uint64_t> vals;
      for (auto &cs : SW->cases()) vals.push_back(cs.getCaseValue()->getZExtValue());
      Constant *arr = ConstantDataArray::get(X.C, vals);
      auto *G = new GlobalVariable(X.M, arr->getType(), true, GlobalValue::PrivateLinkage, arr, "sym.sw");
      call(B, "__sym_switch", X.V, {S(c), as64(B, c), X.i32(bits(c->getType())), X.i32(vals.size()), G});
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      if (!G->getType()->isPointerTy()) return;
      bool any = !isZ(S(G->getPointerOperand()));
      for (auto &ix : G->indices()) any |= !isZ(S(ix.get()));
      if (!any) return;
      // address = base + sum(sext(idx)*scale) + const
      MapVector<Value *, APInt> var;
      APInt off(64, 0);
      if (!G->collectOffset(DL, 64, var, off)) { for (auto &ix : G->indices()) concretize(B, ix.get(), 2); return; }
      Value *h = S(G->getPointerOperand()), *cur = as64(B, G->getPointerOperand());
      for (auto &kv : var) {
        Value *idx = kv.first;
        Value *idx64 = B.CreateSExt(idx, X.I64);
        h = call(B, "__sym_gep", X.I32, {cur, h, idx64, S(idx), X.i32(bits(idx->getType())), ConstantInt::get(X.I64, kv.second)});
        cur = B.CreateAdd(cur, B.CreateMul(idx64, ConstantInt::get(X.I64, kv.second)));
      }
      if (!off.isZero()) h = call(B, "__sym_ibin", X.I32, {X.i32(Instruction::Add), X.i32(64), cur, h, ConstantInt::get(X.I64, off), X.i32(0)});
      sh[&I] = h;
      return;
    }
    if (auto *LI = dyn_cast<LoadInst>(&I)) {
      concretize(B, LI->getPointerOperand(), 0);
      Type *T = LI->getType();
      B.SetInsertPoint(LI->getNextNode());
      if (tracked(T)) {
        unsigned n = DL.getTypeStoreSize(T);
        if (T == X.I64) {
          Value *r = call(B, "__sym_load64", X.I64, {LI->getPointerOperand(), LI});
          Value *h = B.CreateLoad(X.I32, X.retSh);
          LI->replaceUsesWithIf(r, [&](Use &U) { return U.getUser() != r; });
          sh[r] = h;
          sh[LI] = h;
        } else {
          Value *h = call(B, "__sym_load", X.I32, {LI->getPointerOperand(), X.i32(n)});
          if (T->isIntegerTy() && bits(T) != n * 8) h = call(B, "__sym_icast", X.I32, {X.i32(0), X.i32(n * 8), X.i32(bits(T)), h});
          sh[LI] = h;
        }
      } else if (T == X.D) {
        Value *r = call(B, "__sym_loadd", X.D, {LI->getPointerOperand(), LI});
        LI->replaceUsesWithIf(r, [&](Use &U) { return U.getUser() != r; });
      }
      return;
    }
    if (auto *ST = dyn_cast<StoreInst>(&I)) {
      concretize(B, ST->getPointerOperand(), 1);
      Type *T = ST->getValueOperand()->getType();
      unsigned n = DL.getTypeStoreSize(T);
      Value *h = tracked(T) ? S(ST->getValueOperand()) : X.i32(0);
      if (tracked(T) && T->isIntegerTy() && bits(T) != n * 8 && !isZ(h)) h = call(B, "__sym_icast", X.I32, {X.i32(0), X.i32(bits(T)), X.i32(n * 8), h});
      B.SetInsertPoint(ST->getNextNode());
      call(B, "__sym_store", X.V, {ST->getPointerOperand(), X.i32(n), h});
      return;
    }
    if (auto *RI = dyn_cast<ReturnInst>(&I)) {
      Value *v = RI->getReturnValue();
      B.CreateStore(v && tracked(v->getType()) ? S(v) : X.i32(0), X.retSh);
      return;
    }
    if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
      if (auto *II = dyn_cast<IntrinsicInst>(EV->getAggregateOperand())) {
        unsigned op = 0;
        switch (II->getIntrinsicID()) {
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: op = Instruction::Mul; break;
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: op = Instruction::Add; break;
        case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: op = Instruction::Sub; break;
        default: return;
        }
        Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
        if (EV->getIndices()[0] == 0 && tracked(a->getType()) && !(isZ(S(a)) && isZ(S(b))))
          sh[&I] = call(B, "__sym_ibin", X.I32, {X.i32(op), X.i32(bits(a->getType())), as64(B, a), S(a), as64(B, b), S(b)});
      }
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) { visitCall(*CB); return; }
  }

  void visitCall(CallBase &CB) {
    IRBuilder<> B(&CB);
    Function *F = CB.getCalledFunction();
    if (CB.isInlineAsm()) return;
    if (F && F->isIntrinsic()) {
      switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        Value *d = CB.getArgOperand(0), *s = CB.getArgOperand(1), *n = CB.getArgOperand(2);
        setArgs(B, {d, s, n});
        auto *c = call(B, "__sym_h_memmove", X.P, {d, s, B.CreateZExt(n, X.I64)});
        (void)c;
        CB.eraseFromParent();
        return;
      }
      case Intrinsic::memset: {
        Value *d = CB.getArgOperand(0), *v = CB.getArgOperand(1), *n = CB.getArgOperand(2);
        setArgs(B, {d, v, n});
        call(B, "__sym_h_memset", X.P, {d, B.CreateZExt(v, X.I32), B.CreateZExt(n, X.I64)});
        CB.eraseFromParent();
        return;
      }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::ssa_copy:
        if (!isZ(S(CB.getArgOperand(0)))) sh[&CB] = S(CB.getArgOperand(0));
        return;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow:
      case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
        return;
      default:
        for (auto &a : CB.args())
          if (tracked(a->getType())) concretize(B, a.get(), 3);
        return;
      }
    }
    bool ext = F && F->isDeclaration() && !F->getName().starts_with("__sym") && !F->getName().starts_with("sym_");
    if (ext) {
      unsigned k = 0;
      StringRef fn = F->getName();
      // printing a number tells the program nothing about it: keep it symbolic
      bool print = X.ints && (fn == "_ZNSolsEi" || fn == "_ZNSolsEj" || fn == "_ZNSolsEl" || fn == "_ZNSolsEm" || fn == "_ZNSolsEb" || fn == "_ZNSolsEx" || fn == "_ZNSolsEy");
      for (auto &a : CB.args()) {
        if (!(print && k == 1) && tracked(a->getType()) && !isZ(S(a.get()))) {
          Value *nm = B.CreateGlobalStringPtr(F->getName());
          call(B, "__sym_extcall", X.V, {nm, S(a.get()), as64(B, a.get()), X.i32(bits(a->getType()))});
        }
        ++k;
      }
      if (!tracked(CB.getType())) return;
      return; // result concrete
    }
    std::vector<Value *> args;
    for (auto &a : CB.args()) args.push_back(a.get());
    setArgs(B, args);
    B.CreateStore(X.i32(0), X.retSh);
    if (!tracked(CB.getType())) return;
    Instruction *ip;
    if (auto *II = dyn_cast<InvokeInst>(&CB)) {
      BasicBlock *ND = II->getNormalDest();
      if (!ND->getSinglePredecessor()) ND = SplitEdge(II->getParent(), ND);
      ip = &*ND->getFirstInsertionPt();
    } else ip = CB.getNextNode();
    IRBuilder<> B2(ip);
    sh[&CB] = B2.CreateLoad(X.I32, X.retSh);
  }

  void setArgs(IRBuilder<> &B, ArrayRef<Value *> args) {
    unsigned k = 0;
    for (auto *a : args) {
      if (k >= 32) break;
      if (tracked(a->getType())) B.CreateStore(S(a), B.CreateConstInBoundsGEP2_32(X.argSh->getValueType(), X.argSh, 0, k));
      ++k;
    }
  }
};

// counts executed work: instructions per basic block, an eighth of the bytes that are copied or filled
static void countWork(Ctx &X, std::vector<Function *> &fns) {
  auto *G = cast<GlobalVariable>(X.M.getOrInsertGlobal("__sym_cost", X.I64));
  auto add = [&](IRBuilder<> &B, Value *v) { B.CreateStore(B.CreateAdd(B.CreateLoad(X.I64, G), v), G); };
  for (auto *F : fns)
    for (auto &BB : *F) {
      unsigned n = 0;
      std::vector<std::pair<Instruction *, Value *>> blocks;
      for (auto &I : BB) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        ++n;
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          StringRef nm = CB->getCalledFunction() ? CB->getCalledFunction()->getName() : "";
          if (isa<MemIntrinsic>(CB)) blocks.push_back({&I, cast<MemIntrinsic>(CB)->getLength()});
          else if ((nm == "memcpy" || nm == "memmove" || nm == "memset" || nm == "memcmp") && CB->arg_size() == 3) blocks.push_back({&I, CB->getArgOperand(2)});
        }
      }
      auto at = BB.getFirstInsertionPt();
      if (at == BB.end()) continue;
      for (auto &b : blocks) { IRBuilder<> B(b.first); add(B, B.CreateLShr(B.CreateZExtOrTrunc(b.second, X.I64), 3)); }
      IRBuilder<> B(&*at);
      add(B, ConstantInt::get(X.I64, n));
    }
}

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    const char *e = getenv("SYM_INT");
    Ctx X(M, e && *e == '1');
    std::string repo = getenv("SYM_REPO") ? getenv("SYM_REPO") : "/repo";
    X.argSh = cast<GlobalVariable>(M.getOrInsertGlobal("__sym_arg", ArrayType::get(X.I32, 32)));
    X.retSh = cast<GlobalVariable>(M.getOrInsertGlobal("__sym_ret", X.I32));
    // std::string members live in libstdc++.so: use the bodies from the headers instead, so that their bytes are followed
    if (X.ints)
      for (auto &F : M)
        if (F.hasAvailableExternallyLinkage() && (F.getName().contains("basic_stringIc") || F.getName().contains("char_traits")) && !F.getName().contains("stream") && !F.getName().contains("basic_i") && !F.getName().contains("basic_o"))
          F.setLinkage(GlobalValue::InternalLinkage);
    renameExternals(X);
    std::vector<Function *> fns;
    for (auto &F : M) if (!F.isDeclaration()) fns.push_back(&F);
    IntInstrument II(X);
    unsigned unsup = 0;
    // names of the repository's own functions, reported when they are entered
    std::vector<std::pair<Function *, std::string>> mine;
    for (auto *F : fns) {
      if (auto *SP = F->getSubprogram()) {
        std::string fn = SP->getFilename().str();
        if (!fn.empty() && fn[0] != '/') fn = (SP->getDirectory() + "/" + fn).str();
        if (fn.find(repo + "/src") != std::string::npos || fn.find(repo + "/python_extension") != std::string::npos || (getenv("SYM_REPO2") && fn.find(getenv("SYM_REPO2")) != std::string::npos)) mine.push_back({F, (SP->getName() + "@" + StringRef(fn).rsplit('/').second).str()});
      }
    }
    if (getenv("SYM_COST") && *getenv("SYM_COST") == '1') countWork(X, fns);
    for (auto *F : fns) {
      if (X.ints) II.run(*F);
      FPInstrument FI(X);
      if (X.ints) FI.shadow = &II.sh;
      FI.run(*F);
      unsup += FI.unsupported;
      F->removeFnAttr(Attribute::OptimizeNone);
      F->removeFnAttr("no-nans-fp-math");
      F->removeFnAttr("no-infs-fp-math");
      F->removeFnAttr("unsafe-fp-math");
      F->removeFnAttr("approx-func-fp-math");
      F->removeFnAttr("no-signed-zeros-fp-math");
      // memory effects inferred from libm calls no longer hold
      F->removeFnAttr(Attribute::Memory);
    }
    // nofpclass(nan) would turn boxed values into poison
    auto strip = [&](AttributeList AL) {
      AL = AL.removeRetAttribute(X.C, Attribute::NoFPClass);
      for (unsigned i = 0; i < 64; ++i) AL = AL.removeParamAttribute(X.C, i, Attribute::NoFPClass);
      return AL;
    };
    for (auto &F : M) F.setAttributes(strip(F.getAttributes()));
    for (auto *F : fns)
      for (auto &I : instructions(*F))
        if (auto *CB = dyn_cast<CallBase>(&I)) CB->setAttributes(strip(CB->getAttributes()));
    // strip fast-math flags everywhere (phi/select/call may carry nnan, which would make boxes poison)
    for (auto *F : fns)
      for (auto &I : instructions(*F))
        if (isa<FPMathOperator>(&I)) I.setFastMathFlags(FastMathFlags());
    unsigned id = 0;
    std::vector<Constant *> names;
    for (auto &p : mine) {
      IRBuilder<> B(&*p.first->getEntryBlock().getFirstInsertionPt());
      Value *nm = B.CreateGlobalStringPtr(p.second);
      B.CreateCall(X.fn("__sym_enter", X.V, {X.I32, X.P}), {X.i32(id++), nm});
    }
    if (unsup) errs() << "SymPass: " << unsup << " unsupported instructions\n";
    if (verifyModule(M, &errs())) { errs() << "SymPass: broken module\n"; abort(); }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "sym") { MPM.addPass(SymPass()); return true; }
              return false;
            });
          }};
}
