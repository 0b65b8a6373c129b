// vpinstr: rewrites the LLVM IR of a harness (which instantiates the real bezman
// headers) so that every floating point operation on `double` is executed by the
// symbolic runtime (symrt.cpp) instead of the FPU.  Control flow, integers, memory
// and exceptions keep running natively.
//
//   vpinstr IN.(ll|bc) OUT.bc
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace llvm;

static const std::set<std::string> kMath1 = {
    "sqrt", "exp", "log", "log10", "log2", "log1p", "expm1", "exp2", "sin", "cos", "tan",
    "asin", "acos", "atan", "sinh", "cosh", "tanh", "fabs", "floor", "ceil",
    "round", "trunc", "cbrt", "rint", "nearbyint"};
static const std::set<std::string> kMath2 = {"pow", "atan2", "fmod", "fmin", "fmax", "hypot", "copysign", "ldexp_", "fdim", "remainder"};

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage\n"; return 2; }
  LLVMContext C;
  SMDiagnostic D;
  auto M = parseIRFile(argv[1], D, C);
  if (!M) { D.print("vpinstr", errs()); return 2; }
  Type *Dbl = Type::getDoubleTy(C), *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C),
       *I1 = Type::getInt1Ty(C), *I8 = Type::getInt8Ty(C), *Ptr = PointerType::getUnqual(C), *Void = Type::getVoidTy(C);
  auto fn = [&](StringRef n, Type *r, ArrayRef<Type *> a) { return M->getOrInsertFunction(n, FunctionType::get(r, a, false)); };
  unsigned nops = 0, ncmp = 0, nfun = 0, nmath = 0, bad = 0;
  std::map<std::string, GlobalVariable *> names;
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    std::string fname = F.getName().str();
    // The functions below may now leave by longjmp or fork decisions; drop attributes
    // that let later optimisation assume purity.
    F.removeFnAttr(Attribute::Memory);
    F.removeFnAttr(Attribute::WillReturn);
    F.removeFnAttr(Attribute::Speculatable);
    F.removeFnAttr(Attribute::NoSync);
    F.removeFnAttr(Attribute::NoFree);
    F.removeFnAttr(Attribute::MustProgress);
    if (fname == "_ZSt3maxIdERKT_S2_S2_" || fname == "_ZSt3minIdERKT_S2_S2_") {
      bool mx = fname.find("max") != std::string::npos;
      while (!F.empty()) { F.back().dropAllReferences(); F.back().eraseFromParent(); }
      BasicBlock *B = BasicBlock::Create(C, "e", &F);
      IRBuilder<> b(B);
      b.CreateRet(b.CreateCall(fn(mx ? "__vp_max_ref" : "__vp_min_ref", Ptr, {Ptr, Ptr}), {F.getArg(0), F.getArg(1)}));
      F.setLinkage(GlobalValue::InternalLinkage);
      F.setComdat(nullptr);
      nops++;
      continue;
    }
    std::vector<Instruction *> todo;
    for (Instruction &I : instructions(F)) todo.push_back(&I);
    auto rep = [&](Instruction *I, Value *V) { I->replaceAllUsesWith(V); I->eraseFromParent(); };
    // 1. select(fcmp(a,b), x, y) on doubles, fcmp used only there -> merged node
    for (Instruction *&I : todo) {
      auto *S = dyn_cast<SelectInst>(I);
      if (!S || S->getType() != Dbl) continue;
      auto *K = dyn_cast<FCmpInst>(S->getCondition());
      if (!K || K->getOperand(0)->getType() != Dbl || !K->hasOneUse()) continue;
      IRBuilder<> b(I);
      Value *v = b.CreateCall(fn("__vp_select", Dbl, {I32, Dbl, Dbl, Dbl, Dbl}),
                              {b.getInt32(K->getPredicate()), K->getOperand(0), K->getOperand(1), S->getTrueValue(), S->getFalseValue()});
      rep(I, v);
      for (auto *&J : todo) if (J == K) J = nullptr;
      K->eraseFromParent();
      I = nullptr;
      ncmp++;
    }
    for (Instruction *I : todo) {
      if (!I) continue;
      IRBuilder<> b(I);
      if (auto *B = dyn_cast<BinaryOperator>(I)) {
        if (!B->getType()->isFPOrFPVectorTy()) continue;
        if (B->getType() != Dbl) { if (B->getType()->isVectorTy()) { bad++; errs() << "vector fp op in " << fname << "\n"; } continue; }
        const char *n = nullptr;
        switch (B->getOpcode()) {
          case Instruction::FAdd: n = "__vp_fadd"; break;
          case Instruction::FSub: n = "__vp_fsub"; break;
          case Instruction::FMul: n = "__vp_fmul"; break;
          case Instruction::FDiv: n = "__vp_fdiv"; break;
          case Instruction::FRem: n = "__vp_m_fmod"; break;
          default: break;
        }
        rep(I, b.CreateCall(fn(n, Dbl, {Dbl, Dbl}), {B->getOperand(0), B->getOperand(1)}));
        nops++;
      } else if (auto *U = dyn_cast<UnaryOperator>(I)) {
        if (U->getType() != Dbl) continue;
        rep(I, b.CreateCall(fn("__vp_fneg", Dbl, {Dbl}), {U->getOperand(0)}));
        nops++;
      } else if (auto *K = dyn_cast<FCmpInst>(I)) {
        if (K->getOperand(0)->getType() != Dbl) continue;
        Value *v = b.CreateCall(fn("__vp_fcmp", I8, {I32, Dbl, Dbl}), {b.getInt32(K->getPredicate()), K->getOperand(0), K->getOperand(1)});
        rep(I, b.CreateICmpNE(v, b.getInt8(0)));
        ncmp++;
      } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
        if (I->getOperand(0)->getType() != Dbl) continue;
        Value *v = b.CreateCall(fn("__vp_trunc_concrete", Dbl, {Dbl}), {I->getOperand(0)});
        I->setOperand(0, v);
      } else if (isa<FPTruncInst>(I) || isa<FPExtInst>(I)) {
        if (I->getOperand(0)->getType() != Dbl) continue;
        Value *v = b.CreateCall(fn("__vp_leave_double", Dbl, {Dbl}), {I->getOperand(0)});
        I->setOperand(0, v);
      } else if (auto *CB = dyn_cast<CallBase>(I)) {
        Function *T = CB->getCalledFunction();
        if (!T) continue;
        std::string n = T->getName().str();
        if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
          if (n.rfind("llvm.is.fpclass.f64", 0) == 0) {
            Value *v = b.CreateCall(fn("__vp_isfpclass", I8, {Dbl, I32}), {II->getArgOperand(0), II->getArgOperand(1)});
            rep(I, b.CreateICmpNE(v, b.getInt8(0)));
            continue;
          }
          size_t p = n.find(".f64");
          if (p == std::string::npos || II->getType() != Dbl) continue;
          std::string m = n.substr(5, p - 5);
          if (m == "minnum" || m == "minimum") m = "fmin";
          if (m == "maxnum" || m == "maximum") m = "fmax";
          if (m == "fmuladd" || m == "fma") {
            Value *v = b.CreateCall(fn("__vp_fmul", Dbl, {Dbl, Dbl}), {II->getArgOperand(0), II->getArgOperand(1)});
            rep(I, b.CreateCall(fn("__vp_fadd", Dbl, {Dbl, Dbl}), {v, II->getArgOperand(2)}));
            continue;
          }
          if (m == "powi") { bad++; errs() << "powi in " << fname << "\n"; continue; }
          n = m;
          if (!kMath1.count(n) && !kMath2.count(n)) { bad++; errs() << "intrinsic " << T->getName() << "\n"; continue; }
        }
        bool one = kMath1.count(n), two = kMath2.count(n);
        if (!one && !two) {
          if (n == "__assert_fail") CB->setCalledFunction(FunctionCallee(T->getFunctionType(), fn("__vp_assert_fail", Void, {Ptr, Ptr, I32, Ptr}).getCallee()));
          if (n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") CB->setCalledFunction(FunctionCallee(T->getFunctionType(), fn("__vp_glibcxx_assert_fail", Void, {Ptr, I32, Ptr, Ptr}).getCallee()));
          if (n == "abort") CB->setCalledFunction(FunctionCallee(T->getFunctionType(), fn("__vp_abort", Void, {}).getCallee()));
          continue;
        }
        if (CB->getType() != Dbl || CB->arg_size() != (one ? 1u : 2u)) continue;
        std::vector<Value *> args(CB->arg_begin(), CB->arg_end());
        std::vector<Type *> ty(args.size(), Dbl);
        Value *v = b.CreateCall(fn("__vp_m_" + n, Dbl, ty), args);
        if (auto *Inv = dyn_cast<InvokeInst>(CB)) {
          Inv->getUnwindDest()->removePredecessor(Inv->getParent());
          BranchInst::Create(Inv->getNormalDest(), Inv);
        }
        rep(I, v);
        nmath++;
      }
    }
    // coverage: which real functions were executed symbolically
    if (fname.rfind("_ZN6bezman", 0) == 0 || fname.rfind("_ZNK6bezman", 0) == 0) {
      BasicBlock &E = F.getEntryBlock();
      IRBuilder<> b(&*E.getFirstInsertionPt());
      Constant *S = b.CreateGlobalStringPtr(fname, "vpname", 0, M.get());
      auto *flag = new GlobalVariable(*M, I8, false, GlobalValue::InternalLinkage, ConstantInt::get(I8, 0), "vpseen");
      b.CreateCall(fn("__vp_enter", Void, {Ptr, Ptr}), {S, flag});
      nfun++;
    }
  }
  if (bad) { errs() << "vpinstr: " << bad << " unsupported operations\n"; }
  if (verifyModule(*M, &errs())) { errs() << "verify failed\n"; return 2; }
  std::error_code EC;
  raw_fd_ostream O(argv[2], EC);
  WriteBitcodeToFile(*M, O);
  outs() << "{\"fp_ops\":" << nops << ",\"fp_branches\":" << ncmp << ",\"libm\":" << nmath << ",\"functions\":" << nfun << ",\"unsupported\":" << bad << "}\n";
  return 0;
}
