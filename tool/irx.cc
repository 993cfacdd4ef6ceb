// irx: loads the bitcode of the library, links it, flattens the chosen entry
// points (everything reachable is inlined, except the functions named by
// --keep), simplifies the result and writes it out as JSON for the analyses in
// /verif/lib.  Nothing is executed.
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore,
                                    cl::desc("bitcode files"));
static cl::list<std::string> Roots("root",
                                   cl::desc("regex on demangled name"));
static cl::list<std::string> Keep("keep", cl::desc("regex: do not inline"));
static cl::opt<std::string> Out("o", cl::init("-"));
static cl::opt<bool> NoInline("no-inline", cl::init(false));
static cl::opt<bool> NoOpt("no-opt", cl::init(false));
static cl::opt<bool> NoScev("no-scev", cl::init(false));
static cl::opt<bool> AllFns("all", cl::init(false),
                            cl::desc("dump every defined function"));
static cl::opt<bool> ListOnly("list", cl::init(false),
                              cl::desc("only symbols and globals"));
static cl::opt<bool> RunRoots("thread-roots", cl::init(false),
                              cl::desc("also root std::thread start routines"));
static cl::opt<int> Unroll("unroll", cl::init(0), cl::desc("fully unroll loops with at most this many iterations"));
static cl::opt<std::string> Pipeline("pipeline", cl::init(""));
static cl::opt<bool> EmitLL("emit-ll", cl::init(false));
static cl::opt<bool> SplitStructs("split-structs", cl::init(false), cl::desc("give every member of a local struct its own variable"));
static cl::list<std::string> Variants("variant", cl::desc("REGEX@NAME@ARG:OFF=VALUE,...: also analyse a copy of the root where members have the given value (a number, null or nonnull)"));
static cl::opt<bool> KeepDefault("keep-default", cl::init(true));

static std::string dem(StringRef N) { return demangle(N.str()); }

struct Dumper {
  Module &M;
  const DataLayout &DL;
  json::OStream &J;
  DenseMap<const Value *, int> Ids;
  DenseMap<const BasicBlock *, int> BIds;
  DenseMap<const Loop *, int> LIds;
  ScalarEvolution *SE = nullptr;

  Dumper(Module &M, json::OStream &J) : M(M), DL(M.getDataLayout()), J(J) {}

  std::string tstr(Type *T) {
    std::string S;
    raw_string_ostream OS(S);
    if (auto *ST = dyn_cast<StructType>(T)) {
      if (ST->hasName()) return "%" + ST->getName().str();
    }
    T->print(OS, false, true);
    return OS.str();
  }

  void constant(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      SmallString<40> S;
      CI->getValue().toString(S, 10, true);
      J.arrayBegin(); J.value("c"); J.value(S.str()); J.value((int64_t)CI->getBitWidth()); J.arrayEnd();
      return;
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
      SmallString<40> S;
      CF->getValueAPF().toString(S);
      J.arrayBegin(); J.value("f"); J.value(S.str()); J.arrayEnd();
      return;
    }
    if (isa<UndefValue>(C)) { J.arrayBegin(); J.value("u"); J.arrayEnd(); return; }
    if (isa<ConstantPointerNull>(C)) { J.arrayBegin(); J.value("n"); J.arrayEnd(); return; }
    if (isa<ConstantAggregateZero>(C)) { J.arrayBegin(); J.value("z"); J.value(tstr(C->getType())); J.arrayEnd(); return; }
    if (auto *GA = dyn_cast<GlobalAlias>(C)) {
      constant(GA->getAliasee()); return;
    }
    if (auto *GV = dyn_cast<GlobalValue>(C)) {
      J.arrayBegin(); J.value("g"); J.value(GV->getName()); J.arrayEnd();
      return;
    }
    if (auto *CV = dyn_cast<ConstantDataSequential>(C)) {
      J.arrayBegin(); J.value("v");
      J.arrayBegin();
      for (unsigned i = 0; i < CV->getNumElements(); ++i) constant(CV->getElementAsConstant(i));
      J.arrayEnd();
      J.arrayEnd();
      return;
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      J.arrayBegin(); J.value("v");
      J.arrayBegin();
      for (auto &Op : CA->operands()) constant(cast<Constant>(Op));
      J.arrayEnd();
      J.arrayEnd();
      return;
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (auto *GEP = dyn_cast<GEPOperator>(CE)) {
        APInt Off(DL.getIndexSizeInBits(0), 0);
        if (GEP->accumulateConstantOffset(DL, Off)) {
          J.arrayBegin(); J.value("gep"); constant(cast<Constant>(GEP->getPointerOperand()));
          J.value((int64_t)Off.getSExtValue());
          J.arrayEnd();
          return;
        }
      }
      J.arrayBegin(); J.value("ce"); J.value(CE->getOpcodeName());
      for (auto &Op : CE->operands()) constant(cast<Constant>(Op));
      J.arrayEnd();
      return;
    }
    J.arrayBegin(); J.value("?"); J.arrayEnd();
  }

  void operand(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) { constant(C); return; }
    if (auto *B = dyn_cast<BasicBlock>(V)) {
      J.arrayBegin(); J.value("b"); J.value(BIds.lookup(B)); J.arrayEnd(); return;
    }
    if (auto *A = dyn_cast<InlineAsm>(V)) {
      J.arrayBegin(); J.value("asm"); J.value(A->getAsmString()); J.value(A->getConstraintString());
      J.value(A->hasSideEffects()); J.arrayEnd(); return;
    }
    if (isa<MetadataAsValue>(V)) { J.arrayBegin(); J.value("md"); J.arrayEnd(); return; }
    auto It = Ids.find(V);
    if (It != Ids.end()) {
      J.arrayBegin(); J.value(isa<Argument>(V) ? "a" : "i"); J.value(It->second); J.arrayEnd();
      return;
    }
    J.arrayBegin(); J.value("?"); J.arrayEnd();
  }

  int ScevBudget = 0;
  void scev(const SCEV *S) {
    if (--ScevBudget < 0) { J.arrayBegin(); J.value("big"); J.arrayEnd(); return; }
    J.arrayBegin();
    switch (S->getSCEVType()) {
      case scConstant: {
        SmallString<40> T;
        cast<SCEVConstant>(S)->getAPInt().toString(T, 10, true);
        J.value("c"); J.value(T.str()); break;
      }
      case scUnknown: J.value("u"); operand(cast<SCEVUnknown>(S)->getValue()); break;
      case scAddExpr: J.value("add"); for (auto *O : S->operands()) scev(O); break;
      case scMulExpr: J.value("mul"); for (auto *O : S->operands()) scev(O); break;
      case scSMaxExpr: J.value("smax"); for (auto *O : S->operands()) scev(O); break;
      case scUMaxExpr: J.value("umax"); for (auto *O : S->operands()) scev(O); break;
      case scSMinExpr: J.value("smin"); for (auto *O : S->operands()) scev(O); break;
      case scUMinExpr: J.value("umin"); for (auto *O : S->operands()) scev(O); break;
      case scSequentialUMinExpr: J.value("seqmin"); for (auto *O : S->operands()) scev(O); break;
      case scUDivExpr: J.value("udiv"); for (auto *O : S->operands()) scev(O); break;
      case scZeroExtend: J.value("zext"); scev(cast<SCEVCastExpr>(S)->getOperand()); J.value((int64_t)SE->getTypeSizeInBits(cast<SCEVCastExpr>(S)->getOperand()->getType())); break;
      case scSignExtend: J.value("sext"); scev(cast<SCEVCastExpr>(S)->getOperand()); J.value((int64_t)SE->getTypeSizeInBits(cast<SCEVCastExpr>(S)->getOperand()->getType())); break;
      case scTruncate: J.value("trunc"); scev(cast<SCEVCastExpr>(S)->getOperand()); J.value((int64_t)SE->getTypeSizeInBits(S->getType())); break;
      case scPtrToInt: J.value("p2i"); scev(cast<SCEVCastExpr>(S)->getOperand()); break;
      case scAddRecExpr: {
        auto *A = cast<SCEVAddRecExpr>(S);
        J.value("rec"); J.value(LIds.lookup(A->getLoop()));
        for (auto *O : A->operands()) scev(O);
        break;
      }
      case scCouldNotCompute: J.value("cnc"); break;
      default: J.value("other"); break;
    }
    J.arrayEnd();
  }

  void loc(const DebugLoc &D) {
    // [[func, file, line], ...] innermost first
    const DILocation *L = D.get();
    J.attributeArray("loc", [&] {
      int n = 0;
      while (L && n++ < 24) {
        J.arrayBegin();
        auto *SP = L->getScope()->getSubprogram();
        std::string N = SP ? (SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str()) : "";
        J.value(N);
        J.value(L->getFilename());
        J.value((int64_t)L->getLine());
        J.arrayEnd();
        L = L->getInlinedAt();
      }
    });
  }

  void gep(const GEPOperator *G) {
    unsigned BW = DL.getIndexSizeInBits(0);
    MapVector<Value *, APInt> Var;
    APInt Off(BW, 0);
    bool ok = G->collectOffset(DL, BW, Var, Off);
    J.attribute("off", ok ? (int64_t)Off.getSExtValue() : (int64_t)-999999999);
    J.attribute("inb", G->isInBounds());
    J.attributeArray("var", [&] {
      for (auto &P : Var) {
        J.arrayBegin(); operand(P.first); J.value((int64_t)P.second.getSExtValue()); J.arrayEnd();
      }
    });
    J.attribute("sty", tstr(G->getSourceElementType()));
    J.attributeArray("path", [&] {
      for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
        if (StructType *ST = GTI.getStructTypeOrNull()) {
          J.arrayBegin(); J.value(tstr(ST));
          J.value((int64_t)cast<ConstantInt>(GTI.getOperand())->getZExtValue());
          J.arrayEnd();
        }
      }
    });
  }

  static const char *ordstr(AtomicOrdering O) { return toIRString(O); }

  void instr(const Instruction &I) {
    J.objectBegin();
    J.attribute("id", Ids.lookup(&I));
    J.attribute("op", I.getOpcodeName());
    J.attribute("ty", tstr(I.getType()));
    if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) {
      if (O->hasNoSignedWrap()) J.attribute("nsw", true);
      if (O->hasNoUnsignedWrap()) J.attribute("nuw", true);
    }
    if (auto *D = dyn_cast<PossiblyDisjointInst>(&I))
      if (D->isDisjoint()) J.attribute("disjoint", true);
    if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      J.attribute("sz", (int64_t)DL.getTypeStoreSize(L->getType()));
      J.attribute("ord", ordstr(L->getOrdering()));
      J.attribute("vol", L->isVolatile());
    }
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      J.attribute("sz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()));
      J.attribute("vty", tstr(S->getValueOperand()->getType()));
      J.attribute("ord", ordstr(S->getOrdering()));
      J.attribute("vol", S->isVolatile());
    }
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
      J.attribute("aty", tstr(A->getAllocatedType()));
      if (auto Sz = A->getAllocationSize(DL)) J.attribute("asz", (int64_t)Sz->getFixedValue());
      J.attribute("aalign", (int64_t)A->getAlign().value());
      J.attribute("isarr", A->isArrayAllocation());
    }
    if (auto *R = dyn_cast<AtomicRMWInst>(&I)) {
      J.attribute("rmw", AtomicRMWInst::getOperationName(R->getOperation()));
      J.attribute("ord", ordstr(R->getOrdering()));
    }
    if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) {
      J.attribute("ord", ordstr(X->getSuccessOrdering()));
      J.attribute("ford", ordstr(X->getFailureOrdering()));
      J.attribute("weak", X->isWeak());
    }
    if (auto *F = dyn_cast<FenceInst>(&I)) J.attribute("ord", ordstr(F->getOrdering()));
    if (auto *EV = dyn_cast<ExtractValueInst>(&I))
      J.attributeArray("idx", [&] { for (unsigned i : EV->indices()) J.value((int64_t)i); });
    if (auto *IV = dyn_cast<InsertValueInst>(&I))
      J.attributeArray("idx", [&] { for (unsigned i : IV->indices()) J.value((int64_t)i); });
    if (auto *SV = dyn_cast<ShuffleVectorInst>(&I))
      J.attributeArray("mask", [&] { for (int i : SV->getShuffleMask()) J.value((int64_t)i); });
    if (auto *G = dyn_cast<GEPOperator>(&I)) gep(G);
    if (auto *P = dyn_cast<PHINode>(&I)) {
      J.attributeArray("in", [&] {
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
          J.arrayBegin(); J.value(BIds.lookup(P->getIncomingBlock(i))); operand(P->getIncomingValue(i)); J.arrayEnd();
        }
      });
    }
    if (auto *SW = dyn_cast<SwitchInst>(&I)) {
      J.attributeArray("cases", [&] {
        for (auto &C : SW->cases()) {
          J.arrayBegin();
          SmallString<40> S; C.getCaseValue()->getValue().toString(S, 10, true);
          J.value(S.str()); J.value(BIds.lookup(C.getCaseSuccessor()));
          J.arrayEnd();
        }
      });
      J.attribute("default", BIds.lookup(SW->getDefaultDest()));
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      const Value *CV = CB->getCalledOperand()->stripPointerCasts();
      if (auto *F = dyn_cast<Function>(CV)) {
        J.attribute("callee", F->getName());
        J.attribute("dem", dem(F->getName()));
        if (F->isIntrinsic()) J.attribute("intr", true);
        if (!F->isDeclaration()) J.attribute("def", true);
        if (F->doesNotReturn() || CB->doesNotReturn()) J.attribute("noret", true);
        if (F->doesNotAccessMemory()) J.attribute("nomem", true);
        else if (F->onlyReadsMemory()) J.attribute("romem", true);
      } else {
        J.attributeBegin("cv"); operand(CV); J.attributeEnd();
        if (CB->doesNotReturn()) J.attribute("noret", true);
      }
      J.attributeArray("ops", [&] { for (auto &A : CB->args()) operand(A); });
      J.attributeArray("atys", [&] { for (auto &A : CB->args()) J.value(tstr(A->getType())); });
    } else if (!isa<PHINode>(I)) {
      J.attributeArray("ops", [&] { for (auto &O : I.operands()) operand(O); });
    }
    if (I.getDebugLoc()) loc(I.getDebugLoc());
    if (SE && SE->isSCEVable(I.getType()) && !I.getType()->isVectorTy()) {
      const SCEV *S = SE->getSCEV(const_cast<Instruction *>(&I));
      if (!(isa<SCEVUnknown>(S) && cast<SCEVUnknown>(S)->getValue() == &I)) {
        ScevBudget = 400;
        J.attributeBegin("scev"); scev(S); J.attributeEnd();
      }
    }
    J.objectEnd();
  }

  void function(Function &F, FunctionAnalysisManager &FAM) {
    Ids.clear(); BIds.clear(); LIds.clear();
    int n = 0;
    for (auto &A : F.args()) Ids[&A] = n++;
    for (auto &B : F) for (auto &I : B) Ids[&I] = n++;
    n = 0;
    for (auto &B : F) BIds[&B] = n++;
    LoopInfo &LI = FAM.getResult<LoopAnalysis>(F);
    n = 0;
    SmallVector<Loop *, 16> Ls = LI.getLoopsInPreorder();
    for (auto *L : Ls) LIds[L] = n++;
    SE = NoScev ? nullptr : &FAM.getResult<ScalarEvolutionAnalysis>(F);
    J.objectBegin();
    J.attribute("name", F.getName());
    J.attribute("dem", dem(F.getName()));
    J.attribute("tf", F.getFnAttribute("target-features").getValueAsString());
    if (auto *SP = F.getSubprogram()) {
      J.attribute("file", SP->getFilename());
      J.attribute("line", (int64_t)SP->getLine());
      J.attribute("spname", SP->getName());
    }
    J.attribute("ret", tstr(F.getReturnType()));
    J.attributeArray("args", [&] {
      for (auto &A : F.args()) {
        J.objectBegin();
        J.attribute("id", Ids.lookup(&A)); J.attribute("ty", tstr(A.getType())); J.attribute("name", A.getName());
        J.objectEnd();
      }
    });
    J.attributeArray("blocks", [&] {
      for (auto &B : F) {
        J.objectBegin();
        J.attribute("id", BIds.lookup(&B));
        J.attribute("name", B.getName());
        J.attributeArray("succ", [&] { for (auto *S : successors(&B)) J.value(BIds.lookup(S)); });
        J.attributeArray("ins", [&] {
          for (auto &I : B) {
            if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
              auto id = II->getIntrinsicID();
              if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end ||
                  isa<DbgInfoIntrinsic>(II) || id == Intrinsic::assume ||
                  id == Intrinsic::experimental_noalias_scope_decl)
                continue;
            }
            instr(I);
          }
        });
        J.objectEnd();
      }
    });
    J.attributeArray("loops", [&] {
      for (auto *L : Ls) {
        J.objectBegin();
        J.attribute("id", LIds.lookup(L));
        J.attribute("header", BIds.lookup(L->getHeader()));
        J.attribute("parent", L->getParentLoop() ? LIds.lookup(L->getParentLoop()) : -1);
        J.attribute("depth", (int64_t)L->getLoopDepth());
        J.attributeArray("blocks", [&] { for (auto *B : L->blocks()) J.value(BIds.lookup(B)); });
        if (SE) {
          ScevBudget = 400;
          J.attributeBegin("btc"); scev(SE->getBackedgeTakenCount(L)); J.attributeEnd();
          J.attributeBegin("mbtc"); scev(SE->getConstantMaxBackedgeTakenCount(L)); J.attributeEnd();
          SmallVector<BasicBlock *, 8> Ex;
          L->getExitingBlocks(Ex);
          J.attributeArray("exits", [&] {
            for (auto *B : Ex) {
              J.arrayBegin(); J.value(BIds.lookup(B)); ScevBudget = 400; scev(SE->getExitCount(L, B)); J.arrayEnd();
            }
          });
        }
        J.objectEnd();
      }
    });
    // Debug variable records: value id -> source variable (name, type).
    J.attributeArray("dbg", [&] {
      for (auto &B : F) for (auto &I : B) {
        auto *DV = dyn_cast<DbgVariableIntrinsic>(&I);
        if (!DV || DV->getNumVariableLocationOps() != 1) continue;
        const Value *V = DV->getVariableLocationOp(0);
        if (!V || isa<Constant>(V)) continue;
        auto *Var = DV->getVariable();
        auto *T = Var->getType();
        std::string TN = tyname(T);
        J.arrayBegin();
        operand(V); J.value(Var->getName()); J.value(TN);
        auto *SP = Var->getScope()->getSubprogram();
        J.value(SP ? SP->getLinkageName() : StringRef());
        J.value((int64_t)DV->getExpression()->getNumElements());
        J.arrayEnd();
      }
    });
    J.objectEnd();
  }

  std::string tyname(const DIType *T, int depth = 0) {
    if (!T) return "void";
    if (depth > 8) return "...";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      switch (D->getTag()) {
        case dwarf::DW_TAG_pointer_type: return tyname(D->getBaseType(), depth + 1) + "*";
        case dwarf::DW_TAG_reference_type: return tyname(D->getBaseType(), depth + 1) + "&";
        case dwarf::DW_TAG_rvalue_reference_type: return tyname(D->getBaseType(), depth + 1) + "&&";
        case dwarf::DW_TAG_const_type: return "const " + tyname(D->getBaseType(), depth + 1);
        case dwarf::DW_TAG_typedef: return tyname(D->getBaseType(), depth + 1);
        default: return tyname(D->getBaseType(), depth + 1);
      }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      std::string N = scopename(C->getScope()) + C->getName().str();
      return N;
    }
    return T->getName().str();
  }
  std::string scopename(const DIScope *S) {
    std::string R;
    while (S) {
      if (auto *N = dyn_cast<DINamespace>(S)) R = N->getName().str() + "::" + R;
      else if (auto *C = dyn_cast<DICompositeType>(S)) R = C->getName().str() + "::" + R;
      else break;
      S = S->getScope();
    }
    return R;
  }

  void types() {
    DebugInfoFinder Fi;
    Fi.processModule(M);
    std::set<std::string> Done;
    J.attributeArray("types", [&] {
      for (DIType *T : Fi.types()) {
        auto *C = dyn_cast<DICompositeType>(T);
        if (!C || C->isForwardDecl()) continue;
        std::string N = tyname(C);
        if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
          if (!Done.insert("enum " + N).second) continue;
          J.objectBegin();
          J.attribute("enum", N);
          J.attributeArray("values", [&] {
            for (auto *E : C->getElements())
              if (auto *En = dyn_cast_or_null<DIEnumerator>(E)) {
                J.arrayBegin(); J.value(En->getName()); J.value((int64_t)En->getValue().getSExtValue()); J.arrayEnd();
              }
          });
          J.objectEnd();
          continue;
        }
        if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_class_type &&
            C->getTag() != dwarf::DW_TAG_union_type)
          continue;
        if (N.compare(0, 3, "ruy") != 0 && N.compare(0, 7, "cpuinfo") != 0) {
          // only ruy types plus anything anonymous inside
          continue;
        }
        if (!Done.insert(N).second) continue;
        J.objectBegin();
        J.attribute("name", N);
        J.attribute("ident", C->getIdentifier());
        J.attribute("size", (int64_t)C->getSizeInBits() / 8);
        if (auto *F = C->getFile()) J.attribute("file", F->getFilename());
        J.attribute("line", (int64_t)C->getLine());
        J.attributeArray("members", [&] {
          for (auto *E : C->getElements()) {
            auto *D = dyn_cast_or_null<DIDerivedType>(E);
            if (!D) continue;
            if (D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance) {
              J.arrayBegin();
              J.value(D->getName());
              J.value(D->isStaticMember() ? (int64_t)-1 : (int64_t)D->getOffsetInBits() / 8);
              J.value((int64_t)(D->getBaseType() ? D->getBaseType()->getSizeInBits() / 8 : 0));
              J.value(tyname(D->getBaseType()));
              J.value(D->getTag() == dwarf::DW_TAG_inheritance);
              J.value((int64_t)D->getLine());
              J.arrayEnd();
            }
          }
        });
        J.objectEnd();
      }
    });
  }

  void globals() {
    J.attributeArray("globals", [&] {
      for (auto &G : M.globals()) {
        J.objectBegin();
        J.attribute("name", G.getName());
        J.attribute("dem", dem(G.getName()));
        J.attribute("const", G.isConstant());
        J.attribute("def", !G.isDeclaration());
        J.attribute("tls", G.isThreadLocal());
        J.attribute("ty", tstr(G.getValueType()));
        J.attribute("size", G.getValueType()->isSized() ? (int64_t)DL.getTypeAllocSize(G.getValueType()) : (int64_t)0);
        J.attribute("linkage", (int64_t)G.getLinkage());
        SmallVector<DIGlobalVariableExpression *, 1> GVs;
        G.getDebugInfo(GVs);
        if (!GVs.empty()) {
          J.attribute("file", GVs[0]->getVariable()->getFilename());
          J.attribute("line", (int64_t)GVs[0]->getVariable()->getLine());
          J.attribute("dity", tyname(GVs[0]->getVariable()->getType()));
        }
        if (G.hasInitializer() && DL.getTypeAllocSize(G.getValueType()) <= 4096) {
          J.attributeBegin("init"); constant(G.getInitializer()); J.attributeEnd();
        }
        J.objectEnd();
      }
    });
  }

  void symbols() {
    J.attributeArray("symbols", [&] {
      for (auto &F : M) {
        if (F.isIntrinsic()) continue;
        J.objectBegin();
        J.attribute("name", F.getName());
        J.attribute("dem", dem(F.getName()));
        J.attribute("def", !F.isDeclaration());
        J.attribute("linkage", (int64_t)F.getLinkage());
        J.attribute("local", F.hasLocalLinkage());
        J.attribute("weak", F.isWeakForLinker());
        J.attribute("ai", F.hasFnAttribute(Attribute::AlwaysInline));
        J.attribute("tf", F.getFnAttribute("target-features").getValueAsString());
        J.attribute("noret", F.doesNotReturn());
        {
          std::set<std::string> Cs;
          for (auto &BB : F) for (auto &I : BB)
            for (auto &O : I.operands())
              if (auto *C = dyn_cast<Function>(O->stripPointerCasts()))
                if (!C->isIntrinsic()) Cs.insert(C->getName().str());
          J.attributeArray("callees", [&] { for (auto &C : Cs) J.value(C); });
        }
        if (auto *SP = F.getSubprogram()) {
          J.attribute("file", SP->getFilename());
          J.attribute("line", (int64_t)SP->getLine());
        }
        J.objectEnd();
      }
    });
  }
};

static bool matchAny(const std::vector<Regex> &Rs, StringRef S) {
  for (auto &R : Rs) if (const_cast<Regex &>(R).match(S)) return true;
  return false;
}

// std::function objects held in locals: the invoker and manager slots only ever
// hold one function (or null before construction), so loads of them are that
// function.  This lets the callable be inlined.
static bool foldStdFunctions(Module &M) {
  bool Changed = false;
  const DataLayout &DL = M.getDataLayout();
  for (auto &F : M) {
    for (auto &BB : F) for (auto &I : BB) {
      auto *AI = dyn_cast<AllocaInst>(&I);
      if (!AI) continue;
      auto *ST = dyn_cast<StructType>(AI->getAllocatedType());
      if (!ST || !ST->hasName() || !ST->getName().starts_with("class.std::function")) continue;
      std::map<int64_t, std::vector<LoadInst *>> Loads;
      std::map<int64_t, std::set<Value *>> Stores;
      SmallVector<std::pair<Value *, int64_t>, 16> Work{{AI, 0}};
      while (!Work.empty()) {
        auto [V, Off] = Work.pop_back_val();
        for (User *U : V->users()) {
          if (auto *G = dyn_cast<GetElementPtrInst>(U)) {
            APInt O(64, 0);
            if (G->accumulateConstantOffset(DL, O)) Work.push_back({G, Off + O.getSExtValue()});
          } else if (auto *L = dyn_cast<LoadInst>(U)) {
            if (L->getType()->isPointerTy()) Loads[Off].push_back(L);
          } else if (auto *S = dyn_cast<StoreInst>(U)) {
            if (S->getPointerOperand() == V) Stores[Off].insert(S->getValueOperand());
          }
        }
      }
      for (auto &P : Loads) {
        if (P.first < 16) continue;
        Function *Only = nullptr; bool ok = true;
        for (Value *V : Stores[P.first]) {
          if (isa<ConstantPointerNull>(V)) continue;
          auto *Fn = dyn_cast<Function>(V);
          if (!Fn || (Only && Only != Fn)) { ok = false; break; }
          Only = Fn;
        }
        if (!ok || !Only) continue;
        for (auto *L : P.second) if (!L->use_empty()) { L->replaceAllUsesWith(Only); Changed = true; }
      }
    }
  }
  return Changed;
}

// Optimisation drops accesses that certainly miss the local array they are meant
// for: a call is put in front of each so that they are still seen.
static void markOutside(Module &M) {
  auto &DL = M.getDataLayout();
  std::vector<std::pair<Instruction *, std::pair<AllocaInst *, bool>>> Found;
  for (auto &F : M) for (auto &BB : F) for (auto &I : BB) {
    auto look = [&](Value *P, uint64_t Size, bool W) {
      APInt Off(DL.getIndexTypeSizeInBits(P->getType()), 0);
      auto *A = dyn_cast<AllocaInst>(P->stripAndAccumulateConstantOffsets(DL, Off, true));
      if (!A || !Size) return;
      auto Sz = A->getAllocationSize(DL);
      if (!Sz || Sz->isScalable()) return;
      if (Off.isNegative() || Off.getSExtValue() + (int64_t)Size > (int64_t)Sz->getFixedValue()) Found.push_back({&I, {A, W}});
    };
    if (auto *L = dyn_cast<LoadInst>(&I)) look(L->getPointerOperand(), DL.getTypeStoreSize(L->getType()), false);
    else if (auto *S = dyn_cast<StoreInst>(&I)) look(S->getPointerOperand(), DL.getTypeStoreSize(S->getValueOperand()->getType()), true);
    else if (auto *C = dyn_cast<MemIntrinsic>(&I)) {
      auto *N = dyn_cast<ConstantInt>(C->getLength());
      if (!N) continue;
      look(C->getDest(), N->getZExtValue(), true);
      if (auto *T = dyn_cast<MemTransferInst>(C)) look(T->getSource(), N->getZExtValue(), false);
    }
  }
  for (auto &E : Found) {
    auto Fn = M.getOrInsertFunction(E.second.second ? "irx.outside.write" : "irx.outside.read", Type::getVoidTy(M.getContext()),
                                    PointerType::get(M.getContext(), 0));
    if (auto *P = E.first->getPrevNode())
      if (auto *C = dyn_cast<CallInst>(P))
        if (C->getCalledFunction() == Fn.getCallee()) continue;
    auto *C = CallInst::Create(Fn, {E.second.first}, "", E.first);
    C->setDebugLoc(E.first->getDebugLoc());
  }
}

// Accesses to data are kept as written: normalisation may otherwise drop one
// whose value turns out not to be needed.
static void pinAccesses(Module &M) {
  auto data = [](Type *T) { return T->isVectorTy() || T->isFloatTy() || T->isDoubleTy(); };
  auto local = [](Value *P) { return isa<AllocaInst>(getUnderlyingObject(P, 0)); };
  for (auto &F : M) for (auto &BB : F) for (auto &I : BB) {
    if (auto *L = dyn_cast<LoadInst>(&I)) { if (data(L->getType()) && !local(L->getPointerOperand())) L->setVolatile(true); }
    else if (auto *S = dyn_cast<StoreInst>(&I)) { if (data(S->getValueOperand()->getType()) && !local(S->getPointerOperand())) S->setVolatile(true); }
  }
}

// Local objects whose address as a whole stays local: every member becomes a
// variable of its own.  Whoever uses the result has to show that accesses stay
// within the member they start from.
static bool splitStructs(Module &M) {
  const DataLayout &DL = M.getDataLayout();
  bool Changed = false;
  for (auto &F : M) {
    SmallVector<AllocaInst *, 16> As;
    for (auto &BB : F) for (auto &I : BB)
      if (auto *A = dyn_cast<AllocaInst>(&I))
        if (isa<StructType>(A->getAllocatedType()) && !A->isArrayAllocation()) As.push_back(A);
    for (auto *A : As) {
      auto *ST = cast<StructType>(A->getAllocatedType());
      const StructLayout *SL = DL.getStructLayout(ST);
      if (ST->getNumElements() < 2) continue;
      bool ok = true;
      SmallVector<User *, 32> Us(A->users());
      SmallVector<Instruction *, 8> Drop;
      for (User *U : Us) {
        if (auto *G = dyn_cast<GetElementPtrInst>(U)) {
          if (G->getSourceElementType() == ST && G->getNumIndices() >= 2 && isa<ConstantInt>(G->getOperand(1)) && cast<ConstantInt>(G->getOperand(1))->isZero()) continue;
          APInt O(64, 0);
          if (G->accumulateConstantOffset(DL, O) && O.getSExtValue() >= 0 && O.getZExtValue() < SL->getSizeInBytes()) continue;
          MapVector<Value *, APInt> VO; APInt CO(64, 0);
          if (G->collectOffset(DL, 64, VO, CO) && CO.getSExtValue() >= 0 && CO.getZExtValue() < SL->getSizeInBytes() &&
              ST->getElementType(SL->getElementContainingOffset(CO.getZExtValue()))->isArrayTy()) continue;
          ok = false;
        } else if (auto *L = dyn_cast<LoadInst>(U)) {
          if (DL.getTypeStoreSize(L->getType()) > DL.getTypeAllocSize(ST->getElementType(0))) ok = false;
        } else if (auto *S = dyn_cast<StoreInst>(U)) {
          if (S->getPointerOperand() != A || S->getValueOperand() == A ||
              DL.getTypeStoreSize(S->getValueOperand()->getType()) > DL.getTypeAllocSize(ST->getElementType(0))) ok = false;
        } else if (auto *II = dyn_cast<IntrinsicInst>(U)) {
          if (II->isLifetimeStartOrEnd()) Drop.push_back(II);
          else ok = false;
        } else ok = false;
        if (!ok) { if (getenv("IRX_DEBUG")) errs() << "split: " << *A << " used by " << *U << "\n"; break; }
      }
      if (!ok) continue;
      for (auto *D : Drop) D->eraseFromParent();
      std::vector<AllocaInst *> Parts(ST->getNumElements(), nullptr);
      auto part = [&](unsigned k) {
        if (!Parts[k]) {
          IRBuilder<> B(A);
          Parts[k] = B.CreateAlloca(ST->getElementType(k), nullptr, A->getName() + "." + Twine(k));
          Parts[k]->setAlignment(DL.getPrefTypeAlign(ST->getElementType(k)));
        }
        return Parts[k];
      };
      SmallVector<User *, 32> Us2(A->users());
      for (User *U : Us2) {
        if (auto *G = dyn_cast<GetElementPtrInst>(U)) {
          IRBuilder<> B(G);
          Value *N;
          if (G->getSourceElementType() == ST) {
            unsigned k = cast<ConstantInt>(G->getOperand(2))->getZExtValue();
            SmallVector<Value *, 4> Ix{B.getInt64(0)};
            for (unsigned j = 3; j < G->getNumOperands(); ++j) Ix.push_back(G->getOperand(j));
            N = Ix.size() == 1 ? (Value *)part(k) : B.CreateGEP(ST->getElementType(k), part(k), Ix, G->getName());
          } else {
            MapVector<Value *, APInt> VO; APInt CO(64, 0);
            G->collectOffset(DL, 64, VO, CO);
            unsigned k = SL->getElementContainingOffset(CO.getZExtValue());
            N = B.CreateGEP(B.getInt8Ty(), part(k), B.getInt64(CO.getZExtValue() - SL->getElementOffset(k)));
            for (auto &P : VO) {
              Value *X = B.CreateSExtOrTrunc(P.first, B.getInt64Ty());
              N = B.CreateGEP(B.getInt8Ty(), N, B.CreateMul(X, B.getInt64(P.second.getSExtValue())));
            }
          }
          G->replaceAllUsesWith(N);
          G->eraseFromParent();
        } else {
          U->replaceUsesOfWith(A, part(0));
        }
      }
      A->eraseFromParent();
      Changed = true;
    }
  }
  return Changed;
}

struct Variant { std::string Name; std::vector<std::tuple<unsigned, int64_t, std::string>> Set; };

// Replaces loads of members of the arguments by the values a variant gives them.
static void specialise(Function &F, const Variant &V) {
  const DataLayout &DL = F.getParent()->getDataLayout();
  SmallVector<LoadInst *, 32> Ls;
  for (auto &BB : F) for (auto &I : BB) if (auto *L = dyn_cast<LoadInst>(&I)) Ls.push_back(L);
  for (auto *L : Ls) {
    APInt O(64, 0);
    auto *B = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, O, true);
    auto *A = dyn_cast<Argument>(B);
    if (!A) continue;
    for (auto &[arg, off, val] : V.Set) {
      if (arg != A->getArgNo() || off != O.getSExtValue()) continue;
      if (val == "nonnull") {
        if (L->getType()->isPointerTy()) L->setMetadata(LLVMContext::MD_nonnull, MDNode::get(F.getContext(), {}));
      } else if (val == "null") {
        if (L->getType()->isPointerTy()) L->replaceAllUsesWith(ConstantPointerNull::get(cast<PointerType>(L->getType())));
      } else if (L->getType()->isIntegerTy()) {
        L->replaceAllUsesWith(ConstantInt::get(L->getType(), strtoll(val.c_str(), nullptr, 0), true));
      }
    }
  }
}

// Fully unrolls loops whose constant trip count is at most N, innermost first.
static bool unrollSmall(Function &F, FunctionAnalysisManager &FAM, int N) {
  bool Any = false;
  for (int guard = 0; guard < 400; ++guard) {
    auto &LI = FAM.getResult<LoopAnalysis>(F);
    auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
    auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
    auto &AC = FAM.getResult<AssumptionAnalysis>(F);
    auto &TTI = FAM.getResult<TargetIRAnalysis>(F);
    OptimizationRemarkEmitter ORE(&F);
    Loop *Pick = nullptr;
    unsigned TC = 0;
    auto Order = LI.getLoopsInPreorder();
    for (auto *L : llvm::reverse(Order)) {
      simplifyLoop(L, &DT, &LI, &SE, &AC, nullptr, false);
      formLCSSARecursively(*L, DT, &LI, &SE);
      TC = SE.getSmallConstantTripCount(L);
      if (getenv("IRX_DEBUG")) errs() << F.getName() << " loop depth " << L->getLoopDepth() << " tc " << TC << " simp " << L->isLoopSimplifyForm() << " lcssa " << L->isLCSSAForm(DT) << "\n";
      if (TC >= 1 && TC <= (unsigned)N && L->isLoopSimplifyForm() && L->isLCSSAForm(DT)) { Pick = L; break; }
    }
    if (!Pick) break;
    UnrollLoopOptions ULO;
    ULO.Count = TC; ULO.Force = true; ULO.Runtime = false; ULO.AllowExpensiveTripCount = false;
    ULO.UnrollRemainder = false; ULO.ForgetAllSCEV = true;
    auto R = UnrollLoop(Pick, ULO, &LI, &SE, &DT, &AC, &TTI, &ORE, true);
    FAM.invalidate(F, PreservedAnalyses::none());
    if (R == LoopUnrollResult::Unmodified) break;
    Any = true;
  }
  return Any;
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx;
  std::unique_ptr<Module> M;
  std::unique_ptr<Linker> L;
  for (auto &P : Inputs) {
    SMDiagnostic Err;
    auto N = parseIRFile(P, Err, Ctx);
    if (!N) { Err.print("irx", errs()); return 3; }
    if (!M) { M = std::move(N); L = std::make_unique<Linker>(*M); continue; }
    if (L->linkInModule(std::move(N))) { errs() << "link failed: " << P << "\n"; return 3; }
  }
  // Drop ctor/dtor lists' hold on nothing; keep them for the global report.
  std::vector<Regex> RootR, KeepR;
  for (auto &R : Roots) RootR.emplace_back(R);
  for (auto &R : Keep) KeepR.emplace_back(R);
  std::set<Function *> RootF;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string D = dem(F.getName());
    if (matchAny(RootR, D)) RootF.insert(&F);
    if (RunRoots && D.find("std::thread::_State_impl") == 0 && D.find("::_M_run()") != std::string::npos)
      RootF.insert(&F);
    if (AllFns) RootF.insert(&F);
  }
  // A wait on a condition variable leaves the lock object as it found it.
  for (auto &F : *M) {
    if (F.isDeclaration() && dem(F.getName()).find("std::condition_variable::wait(std::unique_lock") == 0) {
      if (F.arg_size() >= 2) { F.addParamAttr(1, Attribute::NoCapture); F.addParamAttr(1, Attribute::ReadOnly); }
    }
    if (F.isDeclaration() && F.getName() == "_ZNSt6chrono3_V212steady_clock3nowEv") {
      F.setOnlyAccessesInaccessibleMemory(); F.setDoesNotThrow(); F.setWillReturn();
    }
    if (F.isDeclaration() && (F.getName() == "pthread_mutex_lock" || F.getName() == "pthread_mutex_unlock"))
      F.addParamAttr(0, Attribute::NoCapture);
  }
  if (!NoInline && !ListOnly) {
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      std::string D = dem(F.getName());
      F.removeFnAttr(Attribute::OptimizeNone);
      if (RootF.count(&F)) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline);
        if (F.hasLinkOnceLinkage() || F.hasWeakLinkage() || F.hasLocalLinkage()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage);} F.setVisibility(GlobalValue::DefaultVisibility); continue; }
      if (matchAny(KeepR, D)) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); continue; }
      F.removeFnAttr(Attribute::NoInline);
      F.addFnAttr(Attribute::AlwaysInline);
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::InternalLinkage);
    }
  }
  std::map<Function *, Variant> VarF;
  for (auto &S : Variants) {
    SmallVector<StringRef, 4> P;
    StringRef(S).split(P, '@');
    if (P.size() != 3) { errs() << "bad variant " << S << "\n"; return 3; }
    Regex R(P[0]);
    Variant V;
    V.Name = P[1].str();
    SmallVector<StringRef, 16> Es;
    P[2].split(Es, ',', -1, false);
    for (auto E : Es) {
      auto [Lhs, Val] = E.split('=');
      auto [Arg, Off] = Lhs.split(':');
      V.Set.emplace_back(std::stoul(Arg.str()), std::stoll(Off.str()), Val.str());
    }
    SmallVector<Function *, 16> Fs;
    for (auto *F : RootF) if (!VarF.count(F) && R.match(dem(F->getName()))) Fs.push_back(F);
    for (auto *F : Fs) {
      ValueToValueMapTy VM;
      Function *C = CloneFunction(F, VM);
      C->setName(F->getName() + "." + V.Name);
      RootF.insert(C);
      VarF[C] = V;
    }
  }
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto runPipe = [&](const std::string &P) {
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, P)) { errs() << toString(std::move(E)) << "\n"; exit(3); }
    MPM.run(*M, MAM);
  };
  if (!ListOnly && !NoInline) {
    SmallVector<GlobalAlias *, 16> As;
    for (auto &A : M->aliases()) As.push_back(&A);
    for (auto *A : As) {
      std::string N = A->getName().str();
      if (auto *T = dyn_cast<Function>(A->getAliasee())) { A->replaceAllUsesWith(T); A->eraseFromParent(); (void)N; }
    }
  }
  if (!ListOnly && !NoOpt && !NoInline && Pipeline.empty()) {
    if (SplitStructs) markOutside(*M);
    runPipe("globaldce,function(sroa,early-cse<memssa>,simplifycfg)");
    if (SplitStructs) {
      for (int r = 0; r < 3; ++r) {
        runPipe("always-inline,globaldce,function(simplifycfg)");
        foldStdFunctions(*M);
        MAM.clear(); FAM.clear(); LAM.clear(); CGAM.clear();
      }
      markOutside(*M);
      // Reference parameters kept in local variables have to go first.
      runPipe("function(sroa,early-cse,simplifycfg)");
      splitStructs(*M);
      pinAccesses(*M);
      MAM.clear(); FAM.clear(); LAM.clear(); CGAM.clear();
    }
    for (int r = 0; r < 5; ++r) {
      if (SplitStructs) markOutside(*M);
      runPipe("always-inline,globaldce,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn)");
      foldStdFunctions(*M);
      if (SplitStructs) splitStructs(*M);
      for (auto &P : VarF) specialise(*P.first, P.second);
      MAM.clear(); FAM.clear(); LAM.clear(); CGAM.clear();
    }
  }
  if (!ListOnly && !NoOpt && Unroll > 0) {
    for (int r = 0; r < 3; ++r) {
      runPipe("function(jump-threading,correlated-propagation,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,loop-mssa(loop-rotate),loop-simplify,lcssa,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa)");
      bool Any = false;
      for (auto &F : *M)
        if (!F.isDeclaration()) Any |= unrollSmall(F, FAM, Unroll);
      MAM.clear(); FAM.clear(); LAM.clear(); CGAM.clear();
      runPipe("function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,sroa,instcombine<no-verify-fixpoint>,simplifycfg)");
      if (!Any) break;
    }
  }
  if (!ListOnly && !NoOpt) {
    std::string P = Pipeline;
    if (P.empty()) {
      P = "function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,sroa,instcombine<no-verify-fixpoint>,jump-threading,correlated-propagation,simplifycfg,"
           "loop-simplify,lcssa,loop-mssa(loop-rotate,licm),gvn,instcombine<no-verify-fixpoint>,simplifycfg,dse,loop-simplify,adce),globaldce";
    }
    runPipe(P);
  }
  if (verifyModule(*M, &errs())) { errs() << "module broken\n"; return 3; }
  std::error_code EC;
  raw_fd_ostream OS(Out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 3; }
  if (EmitLL) { M->print(OS, nullptr); return 0; }
  json::OStream J(OS);
  Dumper D(*M, J);
  J.objectBegin();
  D.types();
  D.globals();
  D.symbols();
  J.attributeArray("functions", [&] {
    if (ListOnly) return;
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      bool want = RootF.count(&F) || AllFns;
      if (!want && !NoInline) want = true;  // whatever survived inlining is reachable
      if (want) D.function(F, FAM);
    }
  });
  J.objectEnd();
  OS << "\n";
  return 0;
}
