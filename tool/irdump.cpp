// irdump: normalises LLVM bitcode compiled from librmn's C sources and writes a
// JSON description (CFG, resolved struct accesses, constants, debug lines) that
// the rules in /verif/rules read.  It never executes the code it describes.
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::Required);
static cl::opt<std::string> BaseList("base", cl::desc("functions known on the reference tree; any other is inlined"));
static cl::list<std::string> InlineFns("inline", cl::CommaSeparated);
static cl::list<std::string> Only("only", cl::CommaSeparated, cl::desc("dump only these functions"));
static cl::list<std::string> OnlyFile("onlyfile", cl::CommaSeparated, cl::desc("dump only functions defined in files with this suffix"));
static cl::opt<bool> NoThread("no-jt", cl::desc("no jump threading"));
static cl::opt<bool> InlineStatics("inline-statics", cl::desc("inline every static function"));
static cl::list<std::string> Keep("keep", cl::CommaSeparated, cl::desc("never inline these"));

static cl::opt<bool> Canon("canon", cl::desc("run the scalar -O2 pipeline (no vectorisation) first"));
static cl::opt<bool> Scev("scev", cl::desc("describe loops and addresses with scalar evolution"));

static const DataLayout *DL;
using J = json::OStream;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream os(s);
  if (auto *ST = dyn_cast<StructType>(T)) { if (ST->hasName()) return ST->getName().str(); }
  T->print(os, false, true); return os.str();
}

static std::map<const Value *, int> Ids;      // per function
static std::map<const BasicBlock *, int> BIds;

static void operand(J &j, const Value *V, int depth = 0);

static void gepPath(J &j, const GEPOperator *G, int depth) {
  // [ "gep", base, [steps] ]
  j.array([&] {
    j.value("gep");
    operand(j, G->getPointerOperand(), depth + 1);
    j.array([&] {
      auto GTI = gep_type_begin(G);
      bool first = true; Type *Prev = nullptr;
      for (auto I = G->idx_begin(), E = G->idx_end(); I != E; ++I, ++GTI) {
        const Value *Idx = *I;
        if (StructType *ST = GTI.getStructTypeOrNull()) {
          unsigned f = cast<ConstantInt>(Idx)->getZExtValue();
          j.array([&] { j.value("f"); j.value(ST->hasName() ? ST->getName() : StringRef("anon"));
            j.value((int64_t)f); j.value((int64_t)DL->getStructLayout(ST)->getElementOffset(f)); });
        } else {
          Type *ET = GTI.getIndexedType();
          int64_t sz = DL->getTypeAllocSize(ET);
          if (first) {
            if (auto *C = dyn_cast<ConstantInt>(Idx)) if (C->isZero()) { first = false; Prev = ET; continue; }
          }
          int64_t n = -1;
          if (!first) if (auto *AT = dyn_cast_or_null<ArrayType>(Prev)) n = AT->getNumElements();
          j.array([&] { j.value(first ? "p" : "x"); operand(j, Idx, depth + 1); j.value(sz); j.value(n); });
        }
        first = false; Prev = GTI.getIndexedType();
      }
    });
    j.value(tyStr(G->getSourceElementType()));
    Type *RT = G->getResultElementType(); bool ragg = RT->isArrayTy();
    j.value(ragg ? (int64_t)DL->getTypeAllocSize(RT) : (int64_t)0);
    Type *SrcT = G->getSourceElementType();
    j.value(SrcT->isArrayTy() ? (int64_t)DL->getTypeAllocSize(SrcT) : (int64_t)0);
  });
}

static void operand(J &j, const Value *V, int depth) {
  if (depth > 12) { j.array([&] { j.value("deep"); }); return; }
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    j.array([&] { j.value("c"); if (C->getBitWidth() <= 64) j.value(C->getSExtValue()); else { SmallString<128> t; C->getValue().toStringSigned(t); j.rawValue(t.str()); } j.value((int64_t)C->getBitWidth()); });
  } else if (auto *C = dyn_cast<ConstantFP>(V)) {
    SmallString<32> s; C->getValueAPF().toString(s, 17);
    j.array([&] { j.value("fp"); j.value(s.str()); });
  } else if (isa<ConstantPointerNull>(V)) j.array([&] { j.value("null"); });
  else if (isa<UndefValue>(V)) j.array([&] { j.value("undef"); });
  else if (auto *A = dyn_cast<GlobalAlias>(V)) j.array([&] { j.value("g"); j.value(A->getName()); });
  else if (auto *G = dyn_cast<GlobalValue>(V)) j.array([&] { j.value("g"); j.value(G->getName()); });
  else if (isa<Argument>(V)) j.array([&] { j.value("a"); j.value((int64_t)cast<Argument>(V)->getArgNo()); });
  else if (isa<Instruction>(V)) j.array([&] { j.value("i"); auto it = Ids.find(V); j.value((int64_t)(it == Ids.end() ? -1 : it->second)); });
  else if (auto *G = dyn_cast<GEPOperator>(V)) gepPath(j, G, depth);
  else if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    j.array([&] { j.value("ce"); j.value(CE->getOpcodeName()); for (auto &O : CE->operands()) operand(j, O, depth + 1); });
  } else if (isa<BasicBlock>(V)) j.array([&] { j.value("bb"); j.value((int64_t)BIds[cast<BasicBlock>(V)]); });
  else if (isa<MetadataAsValue>(V)) j.array([&] { j.value("md"); });
  else if (isa<ConstantAggregateZero>(V)) j.array([&] { j.value("zero"); });
  else j.array([&] { j.value("?"); });
}

static void scevOut(J &j, const SCEV *S, int depth = 0) {
  j.array([&] {
    if (depth > 14) { j.value("deep"); return; }
    auto nary = [&](const char *n, const SCEVNAryExpr *E) { j.value(n); for (auto *O : E->operands()) scevOut(j, O, depth + 1); };
    switch (S->getSCEVType()) {
    case scConstant: { auto &C = cast<SCEVConstant>(S)->getAPInt(); j.value("c"); if (C.getBitWidth() <= 64) j.value(C.getSExtValue()); else j.value(0); j.value((int64_t)C.getBitWidth()); break; }
    case scUnknown: j.value("u"); operand(j, cast<SCEVUnknown>(S)->getValue()); break;
    case scTruncate: case scZeroExtend: case scSignExtend: case scPtrToInt: {
      auto *E = cast<SCEVCastExpr>(S);
      j.value(S->getSCEVType() == scTruncate ? "trunc" : S->getSCEVType() == scZeroExtend ? "zext" : S->getSCEVType() == scSignExtend ? "sext" : "p2i");
      j.value((int64_t)DL->getTypeSizeInBits(E->getType())); scevOut(j, E->getOperand(), depth + 1); break; }
    case scAddExpr: nary("add", cast<SCEVNAryExpr>(S)); break;
    case scMulExpr: nary("mul", cast<SCEVNAryExpr>(S)); break;
    case scUMaxExpr: nary("umax", cast<SCEVNAryExpr>(S)); break;
    case scSMaxExpr: nary("smax", cast<SCEVNAryExpr>(S)); break;
    case scUMinExpr: nary("umin", cast<SCEVNAryExpr>(S)); break;
    case scSMinExpr: nary("smin", cast<SCEVNAryExpr>(S)); break;
    case scUDivExpr: j.value("udiv"); scevOut(j, cast<SCEVUDivExpr>(S)->getLHS(), depth + 1); scevOut(j, cast<SCEVUDivExpr>(S)->getRHS(), depth + 1); break;
    case scAddRecExpr: { auto *A = cast<SCEVAddRecExpr>(S); j.value("rec"); j.value((int64_t)BIds[A->getLoop()->getHeader()]); for (auto *O : A->operands()) scevOut(j, O, depth + 1); break; }
    default: j.value("cnc");
    }
  });
}

static void constInit(J &j, const Constant *C, int depth, int &budget) {
  if (budget-- <= 0 || depth > 8) { j.value(nullptr); return; }
  if (auto *CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() <= 64) j.value(CI->getSExtValue()); else j.value(nullptr); return; }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    if (CD->isString()) {
      std::string s; for (char c : CD->getAsString()) { unsigned char u = c; if (u >= 128) u = '?'; s += (char)u; }
      j.value(s); return; }
    j.array([&] { for (unsigned i = 0; i < CD->getNumElements() && i < 4096; i++) { auto *E = CD->getElementAsConstant(i);
      if (auto *X = dyn_cast<ConstantInt>(E)) { if (X->getBitWidth() <= 64) j.value(X->getSExtValue()); else j.value(nullptr); } else if (auto *F = dyn_cast<ConstantFP>(E)) { SmallString<32> s; F->getValueAPF().toString(s, 17); j.value(s.str()); } else j.value(nullptr); } });
    return;
  }
  if (isa<ConstantArray>(C) || isa<ConstantStruct>(C)) {
    j.array([&] { for (unsigned i = 0; i < C->getNumOperands() && i < 4096; i++) constInit(j, cast<Constant>(C->getOperand(i)), depth + 1, budget); });
    return;
  }
  if (auto *G = dyn_cast<GlobalValue>(C)) { j.object([&] { j.attribute("g", G->getName()); }); return; }
  if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) { j.value(0); return; }
  if (auto *F = dyn_cast<ConstantFP>(C)) { SmallString<32> s; F->getValueAPF().toString(s, 17); j.value(s.str()); return; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) { if (CE->getNumOperands()) { constInit(j, CE->getOperand(0), depth + 1, budget); return; } }
  j.value(nullptr);
}

static std::map<const DICompositeType *, std::string> CompName;
static std::map<std::string, const DICompositeType *> Comps;

static const DIType *strip(const DIType *T) {
  while (T) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) break;
    unsigned t = D->getTag();
    if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type || t == dwarf::DW_TAG_restrict_type || t == dwarf::DW_TAG_atomic_type) T = D->getBaseType();
    else break;
  }
  return T;
}
static bool hasConst(const DIType *T) {
  while (T) { auto *D = dyn_cast<DIDerivedType>(T); if (!D) return false; if (D->getTag() == dwarf::DW_TAG_const_type) return true;
    if (D->getTag() == dwarf::DW_TAG_typedef || D->getTag() == dwarf::DW_TAG_volatile_type || D->getTag()==dwarf::DW_TAG_restrict_type) T = D->getBaseType(); else return false; }
  return false;
}
static int anonN = 0;
static std::string compName(const DICompositeType *C) {
  auto it = CompName.find(C);
  if (it != CompName.end()) return it->second;
  std::string n = C->getName().str();
  if (n.empty()) n = "anon#" + std::to_string(anonN++);
  CompName[C] = n; if (!C->isForwardDecl()) Comps.insert({n, C});
  return n;
}
static void diType(J &j, const DIType *T0, int depth) {
  const DIType *T = strip(T0);
  if (!T) { j.object([&] { j.attribute("k", "void"); }); return; }
  if (depth > 6) { j.object([&] { j.attribute("k", "deep"); }); return; }
  std::string td; if (auto *D = dyn_cast_or_null<DIDerivedType>(T0)) if (D->getTag() == dwarf::DW_TAG_typedef) td = D->getName().str();
  j.object([&] {
    if (!td.empty()) j.attribute("td", td);
    if (hasConst(T0)) j.attribute("const", true);
    if (auto *B = dyn_cast<DIBasicType>(T)) { j.attribute("k", "base"); j.attribute("n", B->getName()); j.attribute("s", (int64_t)B->getSizeInBits()); j.attribute("e", (int64_t)B->getEncoding()); }
    else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_pointer_type) { j.attribute("k", "ptr"); j.attributeBegin("to"); diType(j, D->getBaseType(), depth + 1); j.attributeEnd(); }
      else j.attribute("k", "other");
    } else if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_array_type) {
        j.attribute("k", "arr"); j.attribute("s", (int64_t)C->getSizeInBits());
        j.attributeArray("n", [&] { for (auto *E : C->getElements()) if (auto *S = dyn_cast<DISubrange>(E)) { auto cnt = S->getCount(); if (auto *CI = dyn_cast_if_present<ConstantInt *>(cnt)) j.value(CI->getSExtValue()); else j.value(-1); } });
        j.attributeBegin("of"); diType(j, C->getBaseType(), depth + 1); j.attributeEnd();
      } else if (C->getTag() == dwarf::DW_TAG_enumeration_type) { j.attribute("k", "enum"); j.attribute("s", (int64_t)C->getSizeInBits()); }
      else { j.attribute("k", C->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct"); j.attribute("n", compName(C)); j.attribute("s", (int64_t)C->getSizeInBits()); }
    } else if (isa<DISubroutineType>(T)) j.attribute("k", "fn");
    else j.attribute("k", "?");
  });
}

// static functions of the same name in several units get a ".NNN" suffix when linked
static std::string plain(std::string n) {
  size_t k = n.size(); while (k > 0 && isdigit((unsigned char)n[k - 1])) k--;
  if (k > 1 && k < n.size() && n[k - 1] == '.') return n.substr(0, k - 1);
  return n;
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (auto &I : Inputs) {
    auto N = parseIRFile(I, Err, Ctx);
    if (!N) { Err.print("irdump", errs()); return 2; }
    if (!M) M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N))) { errs() << "link failed: " << I << "\n"; return 2; }
  }
  DL = &M->getDataLayout();
  std::set<std::string> base, force(InlineFns.begin(), InlineFns.end()), keep(Keep.begin(), Keep.end());
  if (!BaseList.empty()) {
    auto B = MemoryBuffer::getFile(BaseList);
    if (!B) { errs() << "no base list\n"; return 2; }
    SmallVector<StringRef> L; (*B)->getBuffer().split(L, '\n', -1, false);
    for (auto s : L) base.insert(plain(s.trim().str()));
  }
  for (auto &F : *M) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); }
  // the address of a thread-local variable: the variable itself
  { std::vector<CallBase *> tl;
    for (auto &F : *M) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (CB->getCalledFunction() && CB->getCalledFunction()->getName().starts_with("llvm.threadlocal.address")) tl.push_back(CB);
    for (auto *CB : tl) { CB->replaceAllUsesWith(CB->getArgOperand(0)); CB->eraseFromParent(); } }
  std::vector<std::string> inlined;
  auto wants = [&](Function *F) {
    if (!F || F->isDeclaration() || F->isVarArg()) return false;
    std::string n = F->getName().str();
    if (keep.count(n)) return false;
    if (force.count(n)) return true;
    if (!base.empty() && !base.count(plain(n))) return true;
    if (InlineStatics && F->hasLocalLinkage()) return true;
    return false;
  };
  // inline to a fixed point, refusing recursion
  std::map<std::string, int> count;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    bool again = true; int rounds = 0; std::set<std::string> seen;
    while (again && rounds++ < 6) {
      again = false;
      std::vector<CallBase *> calls;
      for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { Function *C = CB->getCalledFunction(); if (C && C != &F && wants(C)) calls.push_back(CB); }
      for (auto *CB : calls) {
        Function *C = CB->getCalledFunction(); std::string n = C->getName().str();
        bool rec = false; for (auto &I : instructions(*C)) if (auto *X = dyn_cast<CallBase>(&I)) if (X->getCalledFunction() == C) rec = true;
        if (rec) continue;
        InlineFunctionInfo IFI;
        if (InlineFunction(*CB, IFI).isSuccess()) { again = true; count[n]++; }
      }
    }
  }
  if (Canon) {
    for (auto &F : *M) if (keep.count(F.getName().str())) F.addFnAttr(Attribute::NoInline);
    LoopAnalysisManager L2; FunctionAnalysisManager F2; CGSCCAnalysisManager C2; ModuleAnalysisManager M2;
    PipelineTuningOptions T; T.LoopVectorization = false; T.SLPVectorization = false; T.LoopInterleaving = false; T.MergeFunctions = false;
    PassBuilder P2(nullptr, T); P2.registerModuleAnalyses(M2); P2.registerCGSCCAnalyses(C2); P2.registerFunctionAnalyses(F2); P2.registerLoopAnalyses(L2); P2.crossRegisterProxies(L2, F2, C2, M2);
    P2.buildPerModuleDefaultPipeline(OptimizationLevel::O2).run(*M, M2);
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(PromotePass()); FPM.addPass(InstSimplifyPass());
  if (!NoThread) { FPM.addPass(JumpThreadingPass()); FPM.addPass(InstSimplifyPass()); }
  SimplifyCFGOptions SO; SO.SpeculateBlocks = false; SO.SimplifyCondBranch = false; SO.BonusInstThreshold = 0;
  FPM.addPass(SimplifyCFGPass(SO));
  FPM.addPass(ADCEPass());
  std::set<std::string> only(Only.begin(), Only.end());
  std::error_code EC; raw_fd_ostream OS(Out, EC); if (EC) { errs() << EC.message() << "\n"; return 2; }
  J j(OS, 0);
  j.objectBegin();
  j.attributeObject("inlined", [&] { for (auto &k : count) j.attribute(k.first, k.second); });
  j.attributeObject("aliases", [&] { for (auto &A : M->aliases()) if (auto *G = A.getAliaseeObject()) j.attribute(A.getName(), G->getName()); });
  j.attributeArray("decls", [&] { for (auto &F : *M) if (F.isDeclaration()) j.value(F.getName()); });
  j.attributeObject("functions", [&] {
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      DISubprogram *SP = F.getSubprogram();
      std::string file = SP ? SP->getFilename().str() : "";
      if (!only.empty() && !only.count(F.getName().str())) continue;
      if (!OnlyFile.empty()) { bool ok = false; for (auto &s : OnlyFile) if (StringRef(file).ends_with(s)) ok = true; if (!ok) continue; }
      // names of locals (before promotion removes them we keep alloca names via dbg.declare)
      if (!Canon) FPM.run(F, FAM);
      ScalarEvolution *SE = nullptr; LoopInfo *LI = nullptr;
      if (Scev) { SE = &FAM.getResult<ScalarEvolutionAnalysis>(F); LI = &FAM.getResult<LoopAnalysis>(F); }
      Ids.clear(); BIds.clear(); int n = 0, b = 0;
      for (auto &BB : F) { BIds[&BB] = b++; for (auto &I : BB) { if (isa<DbgInfoIntrinsic>(I)) continue; Ids[&I] = n++; } }
      std::map<const Value *, std::string> vname;
      std::map<const Value *, const DIType *> vtype;
      for (auto &BB : F) for (auto &I : BB) {
        if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) { if (DV->getNumVariableLocationOps() == 1) { Value *V = DV->getVariableLocationOp(0); if (V && !vname.count(V)) { vname[V] = DV->getVariable()->getName().str(); if (isa<AllocaInst>(V)) vtype[V] = DV->getVariable()->getType(); } } }
      }
      j.attributeObject(F.getName(), [&] {
        j.attribute("file", file); j.attribute("line", (int64_t)(SP ? SP->getLine() : 0));
        j.attribute("static", F.hasLocalLinkage());
        j.attribute("vararg", F.isVarArg());
        j.attributeArray("params", [&] {
          DISubroutineType *ST = SP ? SP->getType() : nullptr;
          std::map<unsigned, const DILocalVariable *> pv;
          if (SP) for (auto *N : SP->getRetainedNodes()) if (auto *LV = dyn_cast<DILocalVariable>(N)) if (LV->getArg()) pv[LV->getArg()] = LV;
          for (auto &A : F.args()) {
            j.object([&] {
              unsigned k = A.getArgNo();
              j.attribute("t", tyStr(A.getType()));
              std::string nm = A.getName().str(); if (pv.count(k + 1)) nm = pv[k + 1]->getName().str();
              j.attribute("n", nm);
              const DIType *T = nullptr; if (ST && ST->getTypeArray().size() > k + 1) T = ST->getTypeArray()[k + 1];
              if (pv.count(k + 1)) T = pv[k + 1]->getType();
              j.attributeBegin("di"); diType(j, T, 0); j.attributeEnd();
            });
          }
        });
        j.attributeBegin("ret"); if (SP && SP->getType() && SP->getType()->getTypeArray().size()) diType(j, SP->getType()->getTypeArray()[0], 0); else j.object([&] {}); j.attributeEnd();
        j.attribute("rt", tyStr(F.getReturnType()));
        if (Scev) j.attributeArray("loops", [&] {
          for (Loop *L : LI->getLoopsInPreorder()) j.object([&] {
            j.attribute("h", (int64_t)BIds[L->getHeader()]); j.attribute("p", L->getParentLoop() ? (int64_t)BIds[L->getParentLoop()->getHeader()] : (int64_t)-1);
            if (auto *X = L->getLoopLatch()) j.attribute("latch", (int64_t)BIds[X]);
            j.attributeArray("bbs", [&] { for (auto *B : L->blocks()) j.value((int64_t)BIds[B]); });
            j.attributeBegin("btc"); scevOut(j, SE->getBackedgeTakenCount(L)); j.attributeEnd();
            SmallVector<BasicBlock *> Ex; L->getExitingBlocks(Ex);
            j.attributeArray("exits", [&] { for (auto *B : Ex) j.array([&] { j.value((int64_t)BIds[B]); scevOut(j, SE->getExitCount(L, B)); }); });
          });
        });
        j.attributeArray("blocks", [&] {
          for (auto &BB : F) {
            j.object([&] {
              j.attributeArray("s", [&] { for (auto *S : successors(&BB)) j.value((int64_t)BIds[S]); });
              j.attributeArray("i", [&] {
                for (auto &I : BB) {
                  if (isa<DbgInfoIntrinsic>(I)) continue;
                  j.object([&] {
                    j.attribute("o", I.getOpcodeName());
                    j.attribute("t", tyStr(I.getType()));
                    j.attribute("id", (int64_t)Ids[&I]);
                    if (DILocation *L = I.getDebugLoc().get()) {
                      j.attribute("l", (int64_t)L->getLine());
                      if (auto *S = L->getScope()) if (auto *P = S->getSubprogram()) if (P != SP) j.attribute("fn", P->getName());
                      if (L->getFilename() != StringRef(file)) j.attribute("lf", L->getFilename());
                    }
                    if (vname.count(&I)) j.attribute("v", vname[&I]);
                    if (Scev) {
                      const Value *PV = nullptr;
                      if (auto *X = dyn_cast<LoadInst>(&I)) PV = X->getPointerOperand();
                      else if (auto *X = dyn_cast<StoreInst>(&I)) PV = X->getPointerOperand();
                      if (PV) { j.attributeBegin("sp"); scevOut(j, SE->getSCEV(const_cast<Value *>(PV))); j.attributeEnd(); j.attribute("z", (int64_t)DL->getTypeStoreSize(isa<LoadInst>(I) ? I.getType() : I.getOperand(0)->getType())); }
                      else if (SE->isSCEVable(I.getType()) && !I.getType()->isPointerTy() && !isa<ICmpInst>(I)) { j.attributeBegin("se"); scevOut(j, SE->getSCEV(&I)); j.attributeEnd(); }
                      if (auto *CB = dyn_cast<CallBase>(&I)) j.attributeArray("sa", [&] { for (auto &A : CB->args()) { if (SE->isSCEVable(A->getType())) scevOut(j, SE->getSCEV(A)); else j.value(nullptr); } });
                    }
                    if (auto *A = dyn_cast<AllocaInst>(&I)) {
                      j.attribute("at", tyStr(A->getAllocatedType()));
                      if (auto *C = dyn_cast<ConstantInt>(A->getArraySize())) j.attribute("sz", (int64_t)(DL->getTypeAllocSize(A->getAllocatedType()) * C->getZExtValue()));
                      else { j.attributeBegin("n"); operand(j, A->getArraySize()); j.attributeEnd(); j.attribute("esz", (int64_t)DL->getTypeAllocSize(A->getAllocatedType())); }
                      if (vtype.count(A)) { j.attributeBegin("di"); diType(j, vtype[A], 0); j.attributeEnd(); }
                    } else if (auto *P = dyn_cast<PHINode>(&I)) {
                      j.attributeArray("a", [&] { for (unsigned k = 0; k < P->getNumIncomingValues(); k++) j.array([&] { operand(j, P->getIncomingValue(k)); j.value((int64_t)BIds[P->getIncomingBlock(k)]); }); });
                    } else if (auto *G = dyn_cast<GEPOperator>(&I)) {
                      j.attributeBegin("g"); gepPath(j, G, 0); j.attributeEnd();
                    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
                      j.attributeArray("a", [&] { operand(j, S->getCondition()); });
                      j.attribute("d", (int64_t)BIds[S->getDefaultDest()]);
                      j.attributeArray("cs", [&] { for (auto &C : S->cases()) j.array([&] { j.value(C.getCaseValue()->getBitWidth() <= 64 ? C.getCaseValue()->getSExtValue() : (int64_t)0); j.value((int64_t)BIds[C.getCaseSuccessor()]); }); });
                    } else if (auto *B = dyn_cast<BranchInst>(&I)) {
                      if (B->isConditional()) j.attributeArray("a", [&] { operand(j, B->getCondition()); });
                    } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                      j.attributeBegin("f"); operand(j, CB->getCalledOperand()); j.attributeEnd();
                      j.attributeArray("a", [&] { for (auto &A : CB->args()) operand(j, A); });
                    } else {
                      if (auto *C = dyn_cast<CmpInst>(&I)) j.attribute("p", CmpInst::getPredicateName(C->getPredicate()));
                      if (isa<StoreInst>(I)) j.attribute("st", tyStr(I.getOperand(0)->getType()));
                      j.attributeArray("a", [&] { for (auto &O : I.operands()) operand(j, O); });
                    }
                  });
                }
              });
            });
          }
        });
      });
    }
  });
  j.attributeObject("globals", [&] {
    for (auto &G : M->globals()) {
      j.attributeObject(G.getName(), [&] {
        j.attribute("t", tyStr(G.getValueType())); j.attribute("const", G.isConstant()); j.attribute("local", G.hasLocalLinkage());
        if (G.getValueType()->isSized()) j.attribute("size", (int64_t)DL->getTypeAllocSize(G.getValueType()));
        SmallVector<DIGlobalVariableExpression *> E; G.getDebugInfo(E);
        if (!E.empty()) { auto *V = E[0]->getVariable(); j.attribute("n", V->getName()); j.attribute("line", (int64_t)V->getLine()); j.attribute("file", V->getFilename());
          j.attributeBegin("di"); diType(j, V->getType(), 0); j.attributeEnd(); }
        if (G.hasInitializer()) { j.attributeBegin("init"); int budget = 6000; constInit(j, G.getInitializer(), 0, budget); j.attributeEnd(); }
      });
    }
  });
  // composite types, by LLVM struct name where one exists
  DebugInfoFinder DIF; DIF.processModule(*M);
  for (auto *T : DIF.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) { if (C->getTag() != dwarf::DW_TAG_array_type) compName(C); }
  }
  std::map<const DICompositeType *, std::string> tdn;
  for (auto *T : DIF.types()) if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef) if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType())) if (C->getName().empty()) tdn[C] = D->getName().str();
  j.attributeObject("types", [&] {
    std::set<std::string> done;
    std::vector<std::pair<const DICompositeType *, std::string>> work(CompName.begin(), CompName.end());
    for (size_t k = 0; k < work.size(); k++) {
      auto *C = work[k].first; if (C->isForwardDecl()) continue; if (!done.insert(work[k].second).second) continue;
      j.attributeObject(work[k].second, [&] {
        if (tdn.count(C)) j.attribute("td", tdn[C]);
        j.attribute("tag", C->getTag() == dwarf::DW_TAG_union_type ? "union" : C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : "struct");
        j.attribute("s", (int64_t)C->getSizeInBits());
        j.attribute("file", C->getFilename()); j.attribute("line", (int64_t)C->getLine());
        j.attributeArray("m", [&] {
          for (auto *E : C->getElements()) {
            if (auto *D = dyn_cast<DIDerivedType>(E)) j.object([&] { j.attribute("n", D->getName()); j.attribute("o", (int64_t)D->getOffsetInBits()); j.attribute("s", (int64_t)D->getSizeInBits()); if (D->isBitField()) j.attribute("b", true); j.attributeBegin("di"); diType(j, D->getBaseType(), 0); j.attributeEnd(); });
            else if (auto *En = dyn_cast<DIEnumerator>(E)) j.object([&] { j.attribute("n", En->getName()); j.attribute("v", En->getValue().getSExtValue()); });
          }
        });
      });
      size_t before = work.size(); (void)before;
      for (auto &p : CompName) if (!done.count(p.second)) { bool in = false; for (size_t q = k + 1; q < work.size(); q++) if (work[q].second == p.second) { in = true; break; } if (!in) work.push_back(p); }
    }
  });
  j.objectEnd();
  OS << "\n";
  return 0;
}
