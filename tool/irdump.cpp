// irdump: normalise one LLVM bitcode module to JSON (functions, CFG, instructions, struct layouts, globals).
// Only mem2reg is run, so the emitted program is the resolved program of the real build flags.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/ADT/DenseMap.h"
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;
static json::OStream *J;
static DenseMap<const Value*, int> Ids;
static std::map<std::string, const DICompositeType*> DIStruct;
static std::map<const StructType*, std::string> Seen;

static std::string tyname(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) { return S->hasName() ? S->getName().str() : std::string("struct.lit"); }
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}
static void noteStruct(Type *T) {
  if (auto *A = dyn_cast<ArrayType>(T)) { noteStruct(A->getElementType()); return; }
  auto *S = dyn_cast<StructType>(T);
  if (!S || S->isOpaque() || Seen.count(S)) return;
  Seen[S] = tyname(S);
  for (auto *E : S->elements()) noteStruct(E);
}
static void value(const Value *V);

// innermost (struct, elem) reached by a GEP, constant byte offset, variable terms
static void gepInfo(const GEPOperator *G) {
  int64_t off = 0; std::string st; int elem = -1; int64_t eoff = 0;
  J->attributeBegin("gep"); J->objectBegin();
  J->attributeBegin("base"); value(G->getPointerOperand()); J->attributeEnd();
  J->attribute("src", tyname(G->getSourceElementType()));
  noteStruct(G->getSourceElementType());
  J->attributeBegin("vars"); J->arrayBegin();
  for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
    if (StructType *S = GTI.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(GTI.getOperand())->getZExtValue();
      int64_t o = DL->getStructLayout(S)->getElementOffset(f).getFixedValue();
      off += o; st = tyname(S); elem = f; eoff = o; noteStruct(S);
    } else {
      int64_t sz = DL->getTypeAllocSize(GTI.getIndexedType()).getFixedValue();
      if (auto *C = dyn_cast<ConstantInt>(GTI.getOperand())) { off += C->getSExtValue() * sz; }
      else { J->arrayBegin(); J->value(sz); value(GTI.getOperand()); J->arrayEnd(); }
    }
  }
  J->arrayEnd(); J->attributeEnd();
  J->attribute("off", off);
  J->attribute("n", (int64_t)G->getNumIndices());
  if (elem >= 0) { J->attribute("st", st); J->attribute("fi", elem); J->attribute("fo", eoff); }
  J->objectEnd(); J->attributeEnd();
}

static void value(const Value *V) {
  J->arrayBegin();
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    J->value("c");
    if (C->getBitWidth() <= 64) J->value(C->getSExtValue()); else J->value(0);
    J->value((int64_t) C->getBitWidth());
  } else if (isa<ConstantPointerNull>(V)) { J->value("null"); }
  else if (isa<UndefValue>(V)) { J->value("undef"); }
  else if (auto *F = dyn_cast<ConstantFP>(V)) {
    J->value("f"); SmallString<32> s; F->getValueAPF().toString(s); J->value(s.str());
  } else if (auto *F = dyn_cast<Function>(V)) { J->value("fn"); J->value(F->getName()); }
  else if (auto *G = dyn_cast<GlobalVariable>(V)) { J->value("g"); J->value(G->getName()); }
  else if (auto *GE = dyn_cast<GEPOperator>(V); GE && isa<ConstantExpr>(V)) {
    J->value("cgep"); J->objectBegin(); gepInfo(GE); J->objectEnd();
  } else if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    J->value("ce"); J->value(CE->getOpcodeName());
    for (auto &O : CE->operands()) value(O);
  } else if (isa<ConstantAggregateZero>(V)) { J->value("zero"); }
  else if (auto *CD = dyn_cast<ConstantDataSequential>(V)) {
    if (CD->isString()) { J->value("str"); StringRef s = CD->getAsString(); std::string h; for (unsigned char c : s) { char b[3]; snprintf(b, 3, "%02x", c); h += b; } J->value(h); }
    else { J->value("arr"); for (unsigned i = 0; i < CD->getNumElements(); i++) value(CD->getElementAsConstant(i)); }
  } else if (isa<ConstantArray>(V) || isa<ConstantStruct>(V)) {
    J->value(isa<ConstantArray>(V) ? "arr" : "st");
    for (auto &O : cast<User>(V)->operands()) value(O);
  } else if (auto it = Ids.find(V); it != Ids.end()) { J->value("v"); J->value((int64_t)it->second); }
  else { J->value("other"); J->value(tyname(V->getType())); }
  J->arrayEnd();
}

static const DIType *strip(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    auto t = D->getTag();
    if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type || t == dwarf::DW_TAG_atomic_type) T = D->getBaseType(); else break;
  }
  return T;
}
static std::string ditype(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return ditype(D->getBaseType()) + "*";
      case dwarf::DW_TAG_const_type: return "const " + ditype(D->getBaseType());
      case dwarf::DW_TAG_typedef: return D->getName().str();
      case dwarf::DW_TAG_atomic_type: return "_Atomic " + ditype(D->getBaseType());
      default: return ditype(D->getBaseType());
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return ditype(C->getBaseType()) + "[]";
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) return "enum " + C->getName().str();
    return (C->getTag() == dwarf::DW_TAG_union_type ? "union " : "struct ") + C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 1; }
  // map debug-info local variable names by dbg.declare before mem2reg is lossy; argument names come from DISubprogram
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(PromotePass());
    ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  std::error_code EC; raw_fd_ostream OS(argv[2], EC);
  json::OStream JS(OS); J = &JS;
  DebugInfoFinder Fin; Fin.processModule(*M);
  std::map<std::string, std::vector<std::pair<int64_t,std::string>>> dummy;
  for (auto *T : Fin.types()) {
    const DICompositeType *C = dyn_cast<DICompositeType>(T); std::string nm;
    if (C) nm = C->getName().str();
    else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef) { C = dyn_cast_or_null<DICompositeType>(strip(D)); nm = D->getName().str(); }
    }
    if (!C || nm.empty() || C->isForwardDecl()) continue;
    if (C->getTag() == dwarf::DW_TAG_structure_type) DIStruct["struct." + nm] = C;
    else if (C->getTag() == dwarf::DW_TAG_union_type) DIStruct["union." + nm] = C;
  }
  JS.objectBegin();
  JS.attribute("module", argv[1]);
  JS.attributeBegin("functions"); JS.arrayBegin();
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    Ids.clear(); int n = 0;
    for (auto &A : F.args()) Ids[&A] = n++;
    for (auto &B : F) for (auto &I : B) Ids[&I] = n++;
    JS.objectBegin();
    JS.attribute("name", F.getName());
    JS.attribute("internal", F.hasLocalLinkage());
    auto *SP = F.getSubprogram();
    JS.attribute("file", SP ? SP->getFilename() : "");
    JS.attribute("line", SP ? (int64_t)SP->getLine() : 0);
    std::map<int, std::pair<std::string,std::string>> an;
    if (SP) {
      for (auto *N : SP->getRetainedNodes()) if (auto *LV = dyn_cast<DILocalVariable>(N)) if (LV->getArg()) an[LV->getArg()] = {LV->getName().str(), ditype(LV->getType())};
      if (auto *ST = SP->getType()) {
        auto TA = ST->getTypeArray();
        JS.attributeBegin("sig"); JS.arrayBegin();
        for (unsigned i = 0; i < TA.size(); i++) JS.value(ditype(TA[i]));
        JS.arrayEnd(); JS.attributeEnd();
      }
    }
    // argument names via dbg intrinsics
    for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
      auto *LV = D->getVariable(); if (LV->getArg() && !I.getDebugLoc()->getInlinedAt()) an[LV->getArg()] = {LV->getName().str(), ditype(LV->getType())};
    }
    JS.attributeBegin("args"); JS.arrayBegin();
    int ai = 1;
    for (auto &A : F.args()) {
      JS.arrayBegin(); JS.value((int64_t)Ids[&A]); JS.value(tyname(A.getType()));
      JS.value(an.count(ai) ? an[ai].first : std::string("arg")); JS.value(an.count(ai) ? an[ai].second : std::string("")); JS.arrayEnd(); ai++;
    }
    JS.arrayEnd(); JS.attributeEnd();
    JS.attribute("ret", tyname(F.getReturnType()));
    std::map<const BasicBlock*, int> BI; int b = 0; for (auto &B : F) BI[&B] = b++;
    JS.attributeBegin("blocks"); JS.arrayBegin();
    for (auto &B : F) {
      JS.arrayBegin();
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) {
          if (auto *D = dyn_cast<DbgDeclareInst>(&I)) { // name of a local that stays in memory
            JS.objectBegin(); JS.attribute("op", "dbgvar"); JS.attribute("name", D->getVariable()->getName());
            JS.attribute("ty", ditype(D->getVariable()->getType()));
            JS.attributeBegin("ops"); JS.arrayBegin(); if (D->getAddress()) value(D->getAddress()); JS.arrayEnd(); JS.attributeEnd(); JS.objectEnd();
          } else if (auto *D = dyn_cast<DbgValueInst>(&I)) {
            if (D->getNumVariableLocationOps() == 1 && D->getVariableLocationOp(0)) {
            JS.objectBegin(); JS.attribute("op", "dbgval"); JS.attribute("name", D->getVariable()->getName());
            JS.attributeBegin("ops"); JS.arrayBegin(); value(D->getVariableLocationOp(0)); JS.arrayEnd(); JS.attributeEnd(); JS.objectEnd(); }
          }
          continue;
        }
        JS.objectBegin();
        JS.attribute("id", (int64_t)Ids[&I]);
        JS.attribute("op", I.getOpcodeName());
        JS.attribute("ty", tyname(I.getType()));
        if (auto &L = I.getDebugLoc()) {
          JS.attribute("line", (int64_t)L.getLine());
          if (auto *Sc = dyn_cast<DIScope>(L.getScope())) { auto f = Sc->getFilename(); if (SP && f != SP->getFilename()) JS.attribute("file", f); }
        }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) gepInfo(cast<GEPOperator>(G));
        else if (auto *C = dyn_cast<ICmpInst>(&I)) { JS.attribute("pred", CmpInst::getPredicateName(C->getPredicate())); }
        else if (auto *C = dyn_cast<FCmpInst>(&I)) { JS.attribute("pred", CmpInst::getPredicateName(C->getPredicate())); }
        else if (auto *A = dyn_cast<AllocaInst>(&I)) { noteStruct(A->getAllocatedType()); JS.attribute("aty", tyname(A->getAllocatedType())); JS.attribute("size", (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue()); JS.attribute("vla", A->isArrayAllocation()); }
        else if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) JS.attribute("atomic", true); if (L->isVolatile()) JS.attribute("volatile", true); JS.attribute("size", (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue()); }
        else if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isAtomic()) JS.attribute("atomic", true); JS.attribute("size", (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue()); }
        else if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { JS.attribute("rmw", AtomicRMWInst::getOperationName(R->getOperation())); }
        if (auto *P = dyn_cast<PHINode>(&I)) {
          JS.attributeBegin("inc"); JS.arrayBegin();
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++) { JS.arrayBegin(); JS.value((int64_t)BI[P->getIncomingBlock(k)]); value(P->getIncomingValue(k)); JS.arrayEnd(); }
          JS.arrayEnd(); JS.attributeEnd();
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          JS.attributeBegin("succ"); JS.arrayBegin(); for (unsigned q = 0; q < Br->getNumSuccessors(); q++) JS.value((int64_t)BI[Br->getSuccessor(q)]); JS.arrayEnd(); JS.attributeEnd();
          if (Br->isConditional()) { JS.attributeBegin("cond"); value(Br->getCondition()); JS.attributeEnd(); }
        } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          JS.attributeBegin("cond"); value(Sw->getCondition()); JS.attributeEnd();
          JS.attribute("default", (int64_t)BI[Sw->getDefaultDest()]);
          JS.attributeBegin("cases"); JS.arrayBegin();
          for (auto &Cs : Sw->cases()) { JS.arrayBegin(); JS.value(Cs.getCaseValue()->getSExtValue()); JS.value((int64_t)BI[Cs.getCaseSuccessor()]); JS.arrayEnd(); }
          JS.arrayEnd(); JS.attributeEnd();
        } else if (auto *Cl = dyn_cast<CallBase>(&I)) {
          JS.attributeBegin("callee"); value(Cl->getCalledOperand()->stripPointerCasts()); JS.attributeEnd();
          JS.attributeBegin("ops"); JS.arrayBegin(); for (auto &A : Cl->args()) value(A); JS.arrayEnd(); JS.attributeEnd();
          if (Cl->doesNotReturn()) JS.attribute("noret", true);
        } else if (!isa<GetElementPtrInst>(I)) {
          JS.attributeBegin("ops"); JS.arrayBegin(); for (auto &O : I.operands()) value(O); JS.arrayEnd(); JS.attributeEnd();
          if (isa<CastInst>(I)) JS.attribute("from", tyname(I.getOperand(0)->getType()));
        }
        JS.objectEnd();
      }
      JS.arrayEnd();
    }
    JS.arrayEnd(); JS.attributeEnd();
    JS.objectEnd();
  }
  JS.arrayEnd(); JS.attributeEnd();
  JS.attributeBegin("globals"); JS.arrayBegin();
  for (auto &G : M->globals()) {
    JS.objectBegin(); JS.attribute("name", G.getName()); JS.attribute("internal", G.hasLocalLinkage()); JS.attribute("const", G.isConstant());
    JS.attribute("ty", tyname(G.getValueType())); noteStruct(G.getValueType()); JS.attribute("tls", G.isThreadLocal());
    JS.attribute("size", G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0);
    SmallVector<DIGlobalVariableExpression*, 1> gv; G.getDebugInfo(gv);
    if (!gv.empty()) { auto *v = gv[0]->getVariable(); JS.attribute("src", v->getName()); JS.attribute("line", (int64_t)v->getLine()); JS.attribute("file", v->getFilename()); JS.attribute("dty", ditype(v->getType())); }
    if (G.hasInitializer()) { Ids.clear(); JS.attributeBegin("init"); value(G.getInitializer()); JS.attributeEnd(); }
    JS.objectEnd();
  }
  JS.arrayEnd(); JS.attributeEnd();
  JS.attributeBegin("declares"); JS.arrayBegin();
  for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic()) { JS.arrayBegin(); JS.value(F.getName()); JS.value(F.doesNotReturn()); JS.arrayEnd(); }
  JS.arrayEnd(); JS.attributeEnd();
  JS.attributeBegin("structs"); JS.objectBegin();
  for (auto *S : M->getIdentifiedStructTypes()) noteStruct(S);
  std::set<std::string> done;
  for (auto &kv : Seen) {
    if (!kv.first->isSized() || !done.insert(kv.second).second) continue;
    auto *S = kv.first;
    JS.attributeBegin(kv.second); JS.objectBegin();
    JS.attribute("size", (int64_t)DL->getTypeAllocSize(const_cast<StructType*>(S)).getFixedValue());
    auto it = DIStruct.find(kv.second);
    JS.attributeBegin("fields"); JS.arrayBegin();
    if (it != DIStruct.end()) for (auto *E : it->second->getElements()) if (auto *Md = dyn_cast<DIDerivedType>(E)) {
      JS.arrayBegin(); JS.value(Md->getName()); JS.value((int64_t)(Md->getOffsetInBits() / 8)); JS.value((int64_t)(Md->getSizeInBits() / 8)); JS.value(ditype(Md->getBaseType())); JS.value((int64_t)(Md->isBitField() ? Md->getOffsetInBits() % 8 : -1)); JS.value((int64_t)Md->getSizeInBits()); JS.arrayEnd();
    }
    JS.arrayEnd(); JS.attributeEnd();
    JS.attributeBegin("elems"); JS.arrayBegin();
    auto *SL = DL->getStructLayout(const_cast<StructType*>(S));
    for (unsigned i = 0; i < S->getNumElements(); i++) { JS.arrayBegin(); JS.value((int64_t)SL->getElementOffset(i).getFixedValue()); JS.value(tyname(S->getElementType(i))); JS.value((int64_t)DL->getTypeAllocSize(S->getElementType(i)).getFixedValue()); JS.arrayEnd(); }
    JS.arrayEnd(); JS.attributeEnd();
    JS.objectEnd(); JS.attributeEnd();
  }
  JS.objectEnd(); JS.attributeEnd();
  JS.attributeBegin("enums"); JS.objectBegin();
  std::set<std::string> ed;
  for (auto *T : Fin.types()) {
    const DIType *X = T; std::string nm = T->getName().str();
    const DICompositeType *C = dyn_cast<DICompositeType>(T);
    if (!C) { if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef) C = dyn_cast_or_null<DICompositeType>(strip(D)); }
    (void)X;
    if (!C || C->getTag() != dwarf::DW_TAG_enumeration_type || nm.empty() || !ed.insert(nm).second) continue;
    JS.attributeBegin(nm); JS.objectBegin();
    for (auto *E : C->getElements()) if (auto *En = dyn_cast<DIEnumerator>(E)) JS.attribute(En->getName(), En->getValue().getSExtValue());
    JS.objectEnd(); JS.attributeEnd();
  }
  JS.objectEnd(); JS.attributeEnd();
  JS.objectEnd();
  return 0;
}
