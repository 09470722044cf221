// irdump: load an LLVM bitcode/IR module, normalise every kept function
// (inline everything, promote memory to SSA, fold, unroll constant loops) and
// dump the result as JSON for the static analyses in /verif/zcheck.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static cl::opt<std::string> Input(cl::Positional, cl::Required);
static cl::opt<std::string> Passes("zpasses", cl::init(""));
static cl::opt<std::string> Passes2("zpasses2", cl::init(""));
static cl::opt<std::string> Keep("zkeep", cl::init(""));
static cl::opt<bool> Raw("zraw", cl::init(false));
static cl::opt<bool> DumpLL("zll", cl::init(false));

static std::string esc(StringRef s) {
  std::string o;
  for (char ch : s) {
    unsigned char c = ch;
    if (c == '"' || c == '\\') { o += '\\'; o += ch; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += ch;
  }
  return o;
}
static std::string q(StringRef s) { return "\"" + esc(s) + "\""; }

struct Dumper {
  Module &M; const DataLayout &DL; raw_ostream &OS;
  std::map<const Value *, std::string> ids; unsigned next = 0;
  Dumper(Module &m, raw_ostream &os) : M(m), DL(m.getDataLayout()), OS(os) {}

  std::string ty(Type *T) {
    if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
    if (T->isPointerTy()) return "p";
    if (T->isVoidTy()) return "v";
    if (T->isFloatTy()) return "f32";
    if (T->isDoubleTy()) return "f64";
    std::string s; raw_string_ostream o(s); T->print(o); return "?" + s;
  }
  std::string vid(const Value *V) {
    auto it = ids.find(V); if (it != ids.end()) return it->second;
    std::string s = "%" + std::to_string(next++); ids[V] = s; return s;
  }
  std::string cst(const Constant *C) {
    if (auto *I = dyn_cast<ConstantInt>(C)) {
      SmallString<40> s; I->getValue().toStringUnsigned(s);
      return "[\"c\",\"" + s.str().str() + "\"," + std::to_string(I->getBitWidth()) + "]";
    }
    if (isa<ConstantPointerNull>(C)) return "[\"null\"]";
    if (isa<PoisonValue>(C)) return "[\"poison\"," + q(ty(C->getType())) + "]";
    if (isa<UndefValue>(C)) return "[\"undef\"," + q(ty(C->getType())) + "]";
    if (auto *F = dyn_cast<ConstantFP>(C)) {
      SmallString<40> s; F->getValueAPF().bitcastToAPInt().toStringUnsigned(s);
      return "[\"c\",\"" + s.str().str() + "\"," + std::to_string(F->getType()->getPrimitiveSizeInBits()) + "]";
    }
    if (auto *G = dyn_cast<GlobalValue>(C)) return "[\"g\"," + q(G->getName()) + ",0]";
    if (C->getType()->isPointerTy()) {
      APInt off(DL.getIndexTypeSizeInBits(C->getType()), 0);
      const Value *B = C->stripAndAccumulateConstantOffsets(DL, off, true);
      if (auto *G = dyn_cast<GlobalValue>(B)) {
        return "[\"g\"," + q(G->getName()) + "," + std::to_string(off.getSExtValue()) + "]";
      }
    }
    if (C->isNullValue() && (C->getType()->isAggregateType())) return "[\"zero\"," + q(ty(C->getType())) + "]";
    std::string s; raw_string_ostream o(s); C->print(o);
    return "[\"k\"," + q(s) + "]";
  }
  std::string opnd(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return cst(C);
    if (isa<MetadataAsValue>(V)) return "[\"md\"]";
    return "[\"v\"," + q(vid(V)) + "]";
  }
  std::string loc(const Instruction &I) {
    const DILocation *L = I.getDebugLoc().get();
    std::string s = "["; bool first = true; int n = 0;
    while (L && n < 24) {
      if (!first) s += ","; first = false;
      StringRef fn = "";
      if (auto *SP = L->getScope()->getSubprogram()) fn = SP->getName();
      std::string f = L->getFilename().str();
      s += "[" + q(f) + "," + std::to_string(L->getLine()) + "," + q(fn) + "]";
      L = L->getInlinedAt(); ++n;
    }
    return s + "]";
  }
  void inst(const Instruction &I, std::map<const BasicBlock *, std::string> &bb) {
    OS << "{\"id\":" << q(I.getType()->isVoidTy() ? "" : vid(&I)) << ",\"op\":" << q(I.getOpcodeName())
       << ",\"ty\":" << q(ty(I.getType())) << ",\"loc\":" << loc(I);
    auto ops = [&](unsigned b, unsigned e) {
      OS << ",\"ops\":[";
      for (unsigned i = b; i < e; ++i) OS << (i > b ? "," : "") << opnd(I.getOperand(i));
      OS << "]";
    };
    if (auto *P = dyn_cast<PHINode>(&I)) {
      OS << ",\"inc\":[";
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
        OS << (i ? "," : "") << "[" << opnd(P->getIncomingValue(i)) << "," << q(bb[P->getIncomingBlock(i)]) << "]";
      OS << "]";
    } else if (auto *B = dyn_cast<BranchInst>(&I)) {
      if (B->isConditional()) OS << ",\"cond\":" << opnd(B->getCondition()) << ",\"succ\":[" << q(bb[B->getSuccessor(0)]) << "," << q(bb[B->getSuccessor(1)]) << "]";
      else OS << ",\"succ\":[" << q(bb[B->getSuccessor(0)]) << "]";
    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
      OS << ",\"cond\":" << opnd(S->getCondition()) << ",\"default\":" << q(bb[S->getDefaultDest()]) << ",\"cases\":[";
      bool f = true;
      for (auto &c : S->cases()) { OS << (f ? "" : ",") << "[" << opnd(c.getCaseValue()) << "," << q(bb[c.getCaseSuccessor()]) << "]"; f = false; }
      OS << "]";
    } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
      OS << ",\"pred\":" << q(CmpInst::getPredicateName(C->getPredicate())) << ",\"oty\":" << q(ty(C->getOperand(0)->getType()));
      ops(0, 2);
    } else if (auto *C = dyn_cast<FCmpInst>(&I)) {
      OS << ",\"pred\":" << q(CmpInst::getPredicateName(C->getPredicate()));
      ops(0, 2);
    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      MapVector<Value *, APInt> vars; APInt off(64, 0);
      OS << ",\"inbounds\":" << (G->isInBounds() ? "true" : "false");
      if (cast<GEPOperator>(G)->collectOffset(DL, 64, vars, off)) {
        OS << ",\"base\":" << opnd(G->getPointerOperand()) << ",\"off\":" << off.getSExtValue() << ",\"vars\":[";
        bool f = true;
        for (auto &kv : vars) { OS << (f ? "" : ",") << "[" << opnd(kv.first) << "," << kv.second.getSExtValue() << "," << q(ty(kv.first->getType())) << "]"; f = false; }
        OS << "]";
      } else ops(0, I.getNumOperands());
    } else if (auto *L = dyn_cast<LoadInst>(&I)) {
      OS << ",\"size\":" << DL.getTypeStoreSize(L->getType()).getFixedValue() << ",\"bits\":" << DL.getTypeSizeInBits(L->getType()).getFixedValue();
      ops(0, 1);
    } else if (auto *S = dyn_cast<StoreInst>(&I)) {
      OS << ",\"size\":" << DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue() << ",\"bits\":" << DL.getTypeSizeInBits(S->getValueOperand()->getType()).getFixedValue()
         << ",\"vty\":" << q(ty(S->getValueOperand()->getType()));
      ops(0, 2);
    } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
      auto sz = A->getAllocationSize(DL);
      OS << ",\"size\":" << (sz ? (long long)sz->getFixedValue() : -1LL);
    } else if (auto *C = dyn_cast<CallBase>(&I)) {
      const Value *cal = C->getCalledOperand()->stripPointerCasts();
      OS << ",\"callee\":" << opnd(cal);
      OS << ",\"asm\":" << (C->isInlineAsm() ? "true" : "false");
      OS << ",\"noret\":" << (C->doesNotReturn() ? "true" : "false");
      OS << ",\"nounwind\":" << (C->doesNotThrow() ? "true" : "false");
      OS << ",\"ops\":["; bool f = true;
      for (auto &a : C->args()) { OS << (f ? "" : ",") << opnd(a.get()); f = false; }
      OS << "],\"atys\":["; f = true;
      for (auto &a : C->args()) { OS << (f ? "" : ",") << q(ty(a->getType())); f = false; }
      OS << "]";
      if (auto *V = dyn_cast<InvokeInst>(&I)) OS << ",\"succ\":[" << q(bb[V->getNormalDest()]) << "," << q(bb[V->getUnwindDest()]) << "]";
    } else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
      OS << ",\"idx\":["; bool f = true; for (auto x : E->indices()) { OS << (f ? "" : ",") << x; f = false; } OS << "]";
      ops(0, 1);
    } else if (auto *E = dyn_cast<InsertValueInst>(&I)) {
      OS << ",\"idx\":["; bool f = true; for (auto x : E->indices()) { OS << (f ? "" : ",") << x; f = false; } OS << "]";
      ops(0, 2);
    } else {
      if (I.getNumOperands()) OS << ",\"oty\":" << q(ty(I.getOperand(0)->getType()));
      ops(0, I.getNumOperands());
      if (auto *O = dyn_cast<PossiblyDisjointInst>(&I)) if (O->isDisjoint()) OS << ",\"disjoint\":true";
      if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) OS << ",\"nuw\":" << (O->hasNoUnsignedWrap() ? "true" : "false") << ",\"nsw\":" << (O->hasNoSignedWrap() ? "true" : "false");
    }
    OS << "}";
  }
  void func(Function &F) {
    ids.clear(); next = 0;
    std::map<const BasicBlock *, std::string> bb; unsigned n = 0;
    for (auto &B : F) bb[&B] = "b" + std::to_string(n++);
    DominatorTree DT(F); LoopInfo LI(DT);
    OS << "{\"name\":" << q(F.getName()) << ",\"internal\":" << (F.hasLocalLinkage() ? "true" : "false") << ",\"ret\":" << q(ty(F.getReturnType())) << ",\"args\":[";
    bool f = true;
    for (auto &A : F.args()) { OS << (f ? "" : ",") << "[" << q(vid(&A)) << "," << q(ty(A.getType())) << "," << q(A.getName()) << "]"; f = false; }
    OS << "],\"blocks\":["; f = true;
    for (auto &B : F) {
      OS << (f ? "" : ",\n") << "{\"name\":" << q(bb[&B]) << ",\"loop\":";
      if (auto *L = LI.getLoopFor(&B)) OS << q(bb[L->getHeader()]); else OS << "null";
      OS << ",\"insts\":["; f = false; bool g = true;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (!g) OS << ",\n "; g = false;
        inst(I, bb);
      }
      OS << "]}";
    }
    OS << "]}";
  }
  // initialiser as bytes when it is plain data, or list of function refs
  void init(const Constant *C) {
    if (auto *CA = dyn_cast<ConstantDataSequential>(C)) {
      StringRef r = CA->getRawDataValues(); OS << "{\"bytes\":[";
      for (size_t i = 0; i < r.size(); ++i) OS << (i ? "," : "") << (unsigned)(unsigned char)r[i]; OS << "]}"; return;
    }
    if (isa<ConstantAggregateZero>(C) ) { OS << "{\"zero\":" << DL.getTypeAllocSize(C->getType()).getFixedValue() << "}"; return; }
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      unsigned nb = DL.getTypeAllocSize(C->getType()).getFixedValue(); APInt v = CI->getValue().zextOrTrunc(nb * 8); OS << "{\"bytes\":[";
      for (unsigned i = 0; i < nb; ++i) OS << (i ? "," : "") << v.extractBits(8, 8 * i).getZExtValue(); OS << "]}"; return;
    }
    if (isa<ConstantArray>(C) || isa<ConstantStruct>(C)) {
      OS << "{\"agg\":[";
      for (unsigned i = 0; i < C->getNumOperands(); ++i) {
        unsigned long long o;
        if (auto *ST = dyn_cast<StructType>(C->getType())) o = DL.getStructLayout(ST)->getElementOffset(i);
        else o = i * DL.getTypeAllocSize(cast<ArrayType>(C->getType())->getElementType()).getFixedValue();
        OS << (i ? "," : "") << "[" << o << ","; init(cast<Constant>(C->getOperand(i))); OS << "]";
      }
      OS << "]}"; return;
    }
    OS << "{\"ref\":" << cst(C) << "}";
  }
  void run() {
    OS << "{\"functions\":[\n"; bool f = true;
    for (auto &F : M) if (!F.isDeclaration()) { OS << (f ? "" : ",\n"); f = false; func(F); }
    OS << "],\n\"declared\":["; f = true;
    for (auto &F : M) if (F.isDeclaration() && !F.use_empty()) { OS << (f ? "" : ",") << "[" << q(F.getName()) << "," << (F.doesNotThrow() ? "true" : "false") << "," << (F.isIntrinsic() ? "true" : "false") << "]"; f = false; }
    OS << "],\n\"globals\":["; f = true;
    for (auto &G : M.globals()) {
      OS << (f ? "" : ",\n") << "{\"name\":" << q(G.getName()) << ",\"const\":" << (G.isConstant() ? "true" : "false") << ",\"tls\":" << (G.isThreadLocal() ? "true" : "false")
         << ",\"size\":" << (G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()).getFixedValue() : 0);
      if (G.hasInitializer()) { OS << ",\"init\":"; init(G.getInitializer()); }
      OS << "}"; f = false;
    }
    OS << "]}\n";
  }
};

// Fully unroll every loop whose trip count is a compile-time constant.
static cl::opt<unsigned> UnrollMax("zunroll", cl::init(160));
struct ZUnroll : PassInfoMixin<ZUnroll> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &AM) {
    auto &LI = AM.getResult<LoopAnalysis>(F); auto &DT = AM.getResult<DominatorTreeAnalysis>(F);
    auto &SE = AM.getResult<ScalarEvolutionAnalysis>(F); auto &AC = AM.getResult<AssumptionAnalysis>(F);
    auto &TTI = AM.getResult<TargetIRAnalysis>(F); OptimizationRemarkEmitter ORE(&F);
    bool any = false, ch = true; unsigned guard = 0; std::set<BasicBlock *> tried;
    while (ch && guard++ < 200) {
      ch = false;
      SmallVector<Loop *, 16> loops = LI.getLoopsInPreorder();
      for (auto it = loops.rbegin(); it != loops.rend(); ++it) {
        Loop *L = *it; if (!L->isInnermost()) continue;
        if (tried.count(L->getHeader())) continue;
        tried.insert(L->getHeader());
        simplifyLoop(L, &DT, &LI, &SE, &AC, nullptr, false);
        formLCSSARecursively(*L, DT, &LI, &SE);
        if (!L->getLoopLatch() || !L->getLoopPreheader()) continue;
        unsigned tc = SE.getSmallConstantTripCount(L);
        bool upper = false;
        if (!tc) { tc = SE.getSmallConstantMaxTripCount(L); upper = true; }
        if (!tc || tc > UnrollMax) continue;
        UnrollLoopOptions O; O.Count = tc; O.Force = true; O.Runtime = false; O.AllowExpensiveTripCount = false; O.UnrollRemainder = false; O.ForgetAllSCEV = true;
        if (upper) {
          // only loops that really carry a constant bound in one of their exits (an early exit may leave sooner)
          SmallVector<BasicBlock *, 8> ex; L->getExitingBlocks(ex); bool cb = false;
          for (auto *B : ex) if (isa<SCEVConstant>(SE.getExitCount(L, B))) cb = true;
          if (!cb) continue;
        }
        auto R = UnrollLoop(L, O, &LI, &SE, &DT, &AC, &TTI, &ORE, true);
        if (R != LoopUnrollResult::Unmodified) { any = ch = true; break; }
      }
    }
    return any ? PreservedAnalyses::none() : PreservedAnalyses::none();
  }
};

static void markInline(Module &M, const std::set<std::string> &keep) {
  // functions in call graph cycles cannot be inlined away
  CallGraph CG(M); std::set<Function *> rec;
  for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
    if (it.hasCycle()) for (auto *N : *it) if (N->getFunction()) rec.insert(N->getFunction());
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    if (keep.count(F.getName().str())) { F.setLinkage(GlobalValue::ExternalLinkage); continue; }
    F.setComdat(nullptr);
    F.setLinkage(GlobalValue::InternalLinkage);
    F.removeFnAttr(Attribute::NoInline);
    if (!rec.count(&F)) F.addFnAttr(Attribute::AlwaysInline);
    else F.removeFnAttr(Attribute::AlwaysInline);
  }
  for (auto &G : M.globals()) if (!G.isDeclaration() && G.hasLinkOnceODRLinkage()) { G.setComdat(nullptr); G.setLinkage(GlobalValue::InternalLinkage); }
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv, "irdump\n");
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(Input, Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  std::set<std::string> keep; 
  { StringRef s(Keep); SmallVector<StringRef, 64> v; s.split(v, ',', -1, false);
    for (auto x : v) keep.insert(x.str()); }
  if (keep.empty()) for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with("zh_")) keep.insert(F.getName().str());
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  // library calls must not be reinterpreted beyond memory intrinsics
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.registerPipelineParsingCallback([](StringRef N, FunctionPassManager &FPM, ArrayRef<PassBuilder::PipelineElement>) {
    if (N == "z-unroll") { FPM.addPass(ZUnroll()); return true; } return false; });
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  if (!Raw) markInline(*M, keep);
  auto runp = [&](const std::string &p) -> bool {
    if (p.empty()) return true;
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, p)) { errs() << "irdump: bad pipeline: " << toString(std::move(E)) << "\n"; return false; }
    MPM.run(*M, MAM); return true;
  };
  if (!runp(Passes)) return 2;
  if (!Passes2.empty()) { if (!Raw) markInline(*M, keep); MAM.clear(); FAM.clear(); LAM.clear(); CGAM.clear(); if (!runp(Passes2)) return 2; }
  if (DumpLL) M->print(errs(), nullptr);
  Dumper(*M, outs()).run();
  return 0;
}
