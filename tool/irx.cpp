// irx: links LLVM bitcode, flattens every function that is defined in the
// linked module into its callers (so that rules see behaviour and not the
// way it is split over helpers), simplifies, and writes functions, class
// layouts and vtable slots as JSON lines for the rule engine in /verif/xa.
//
// It never executes anything: it only reads and rewrites IR.
#include "llvm/ADT/StringExtras.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include <map>
#include <set>
using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::init("-"));
static cl::opt<std::string> Keep("keep", cl::desc("regex on mangled names of functions to dump"), cl::init("xtr"));
static cl::list<std::string> NoInl("noinline", cl::desc("regex on demangled names never inlined"));
static cl::opt<std::string> Pipeline("pipeline", cl::init(""));
static cl::opt<std::string> EmitLL("emit-ll", cl::init(""));
static cl::opt<bool> NoFlatten("no-flatten", cl::init(false));

static std::map<const Function*, std::string> DemCache;
static const std::string& dem(const Function& F) {
  auto it = DemCache.find(&F);
  if (it != DemCache.end()) return it->second;
  return DemCache[&F] = demangle(F.getName().str());
}

static std::string tyStr(Type* T) {
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}

static std::string ditype(const DIType* T);
struct Dumper {
  json::OStream& J;
  const DataLayout& DL;
  DenseMap<const Value*, int> Ids;
  Dumper(json::OStream& J, const DataLayout& DL) : J(J), DL(DL) {}

  void constant(const Constant* C) {
    if (auto* CI = dyn_cast<ConstantInt>(C)) {
      J.attributeBegin("k"); J.value("i"); J.attributeEnd();
      if (CI->getBitWidth() <= 64) J.attribute("v", CI->getSExtValue());
      else J.attribute("s", toString(CI->getValue(), 10, true));
      J.attribute("w", (int64_t)CI->getBitWidth());
      return;
    }
    if (isa<ConstantPointerNull>(C)) { J.attribute("k", "null"); return; }
    if (isa<PoisonValue>(C)) { J.attribute("k", "poison"); return; }
    if (isa<UndefValue>(C)) { J.attribute("k", "undef"); return; }
    if (auto* G = dyn_cast<GlobalValue>(C)) {
      J.attribute("k", isa<Function>(G) ? "fn" : "g"); J.attribute("n", G->getName()); return;
    }
    if (auto* F = dyn_cast<ConstantFP>(C)) {
      SmallString<32> S; F->getValueAPF().toString(S);
      J.attribute("k", "fp"); J.attribute("s", S.str()); return;
    }
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
      if (auto* GO = dyn_cast<GEPOperator>(E)) {
        APInt off(DL.getIndexSizeInBits(0), 0);
        if (GO->accumulateConstantOffset(DL, off)) {
          J.attribute("k", "goff");
          J.attributeBegin("b"); val(GO->getPointerOperand()); J.attributeEnd();
          J.attribute("o", off.getSExtValue()); return;
        }
      }
      J.attribute("k", "ce"); J.attribute("op", E->getOpcodeName());
      J.attributeArray("a", [&]{ for (auto& U : E->operands()) val(U.get()); });
      return;
    }
    if (C->isNullValue()) { J.attribute("k", "zero"); return; }
    J.attribute("k", "other"); J.attribute("s", tyStr(C->getType()));
    if (auto* A = dyn_cast<ConstantAggregate>(C)) {
      J.attributeArray("a", [&]{ for (auto& U : A->operands()) val(U.get()); });
    }
  }
  void val(const Value* V) {
    auto it = Ids.find(V);
    if (it != Ids.end()) { J.value(it->second); return; }
    J.object([&]{
      if (auto* C = dyn_cast<Constant>(V)) constant(C);
      else if (auto* A = dyn_cast<InlineAsm>(V)) { J.attribute("k", "asm"); J.attribute("s", A->getAsmString()); }
      else if (isa<MetadataAsValue>(V)) {
        J.attribute("k", "md");
        auto* M = cast<MetadataAsValue>(V)->getMetadata();
        if (auto* S = dyn_cast<MDString>(M)) J.attribute("s", S->getString());
      } else J.attribute("k", "?");
    });
  }
  void loc(const Instruction& I) {
    const DebugLoc& D = I.getDebugLoc();
    if (!D) return;
    J.attributeArray("loc", [&]{
      const DILocation* L = D.get();
      while (L) {
        auto* SP = L->getScope()->getSubprogram();
        J.array([&]{
          J.value(L->getFilename()); J.value((int64_t)L->getLine());
          StringRef nm = SP ? (SP->getLinkageName().empty() ? SP->getName() : SP->getLinkageName()) : "";
          J.value(nm);
        });
        L = L->getInlinedAt();
      }
    });
  }
  void tbaa(const Instruction& I) {
    auto* N = I.getMetadata(LLVMContext::MD_tbaa);
    if (!N || N->getNumOperands() < 3) return;
    auto* B = dyn_cast<MDNode>(N->getOperand(0));
    auto* A = dyn_cast<MDNode>(N->getOperand(1));
    if (!B || !A) return;
    auto name = [](MDNode* M) -> StringRef {
      if (M->getNumOperands() == 0) return "";
      if (auto* S = dyn_cast<MDString>(M->getOperand(0))) return S->getString(); return ""; };
    uint64_t off = 0;
    if (auto* C = mdconst::dyn_extract<ConstantInt>(N->getOperand(2))) off = C->getZExtValue();
    J.attributeArray("tbaa", [&]{ J.value(name(B)); J.value((int64_t)off); J.value(name(A)); });
  }
  void inst(const Instruction& I) {
    J.object([&]{
      J.attribute("id", Ids.lookup(&I));
      J.attribute("op", I.getOpcodeName());
      J.attribute("ty", tyStr(I.getType()));
      loc(I); tbaa(I);
      auto ops = [&]{ J.attributeArray("a", [&]{ for (auto& U : I.operands()) if (!isa<BasicBlock>(U.get())) val(U.get()); }); };
      if (auto* L = dyn_cast<LoadInst>(&I)) {
        J.attribute("sz", (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue());
        if (L->isAtomic()) J.attribute("ord", toIRString(L->getOrdering()));
        if (L->isVolatile()) J.attribute("vol", true);
        ops();
      } else if (auto* S = dyn_cast<StoreInst>(&I)) {
        J.attribute("sz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue());
        J.attribute("vty", tyStr(S->getValueOperand()->getType()));
        if (S->isAtomic()) J.attribute("ord", toIRString(S->getOrdering()));
        if (S->isVolatile()) J.attribute("vol", true);
        ops();
      } else if (auto* R = dyn_cast<AtomicRMWInst>(&I)) {
        J.attribute("ord", toIRString(R->getOrdering()));
        J.attribute("rmw", AtomicRMWInst::getOperationName(R->getOperation()));
        J.attribute("sz", (int64_t)DL.getTypeStoreSize(R->getValOperand()->getType()).getFixedValue());
        ops();
      } else if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) {
        J.attribute("ord", toIRString(X->getSuccessOrdering()));
        J.attribute("ford", toIRString(X->getFailureOrdering())); ops();
      } else if (auto* Fe = dyn_cast<FenceInst>(&I)) {
        J.attribute("ord", toIRString(Fe->getOrdering()));
      } else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value*, APInt> VO; APInt CO(DL.getIndexSizeInBits(0), 0);
        if (G->collectOffset(DL, DL.getIndexSizeInBits(0), VO, CO)) {
          J.attribute("off", CO.getSExtValue());
          J.attributeArray("var", [&]{ for (auto& P : VO) { J.array([&]{ val(P.first); J.value(P.second.getSExtValue()); }); } });
        }
        J.attributeArray("a", [&]{ val(G->getPointerOperand()); });
        if (G->isInBounds()) J.attribute("inb", true);
      } else if (auto* C = dyn_cast<CmpInst>(&I)) {
        J.attribute("pred", CmpInst::getPredicateName(C->getPredicate())); ops();
      } else if (auto* P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("in", [&]{ for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) J.array([&]{ val(P->getIncomingValue(i)); J.value(Ids.lookup(P->getIncomingBlock(i))); }); });
      } else if (auto* B = dyn_cast<BranchInst>(&I)) {
        if (B->isConditional()) { J.attributeArray("a", [&]{ val(B->getCondition()); }); }
        J.attributeArray("succ", [&]{ for (auto* S : successors(&I)) J.value(Ids.lookup(S)); });
      } else if (auto* S = dyn_cast<SwitchInst>(&I)) {
        J.attributeArray("a", [&]{ val(S->getCondition()); });
        J.attribute("def", Ids.lookup(S->getDefaultDest()));
        J.attributeArray("cases", [&]{ for (auto& c : S->cases()) J.array([&]{ J.value(c.getCaseValue()->getSExtValue()); J.value(Ids.lookup(c.getCaseSuccessor())); }); });
        J.attributeArray("succ", [&]{ for (auto* X : successors(&I)) J.value(Ids.lookup(X)); });
      } else if (auto* CB = dyn_cast<CallBase>(&I)) {
        J.attributeBegin("callee"); val(CB->getCalledOperand()->stripPointerCasts()); J.attributeEnd();
        J.attributeArray("a", [&]{ for (auto& U : CB->args()) val(U.get()); });
        if (CB->doesNotReturn()) J.attribute("noret", true);
        if (CB->doesNotThrow()) J.attribute("nounw", true);
        if (CB->onlyReadsMemory()) J.attribute("ro", true);
        J.attributeArray("pty", [&]{ for (auto& U : CB->args()) J.value(tyStr(U->getType())); });
        if (auto* II = dyn_cast<InvokeInst>(CB)) {
          J.attribute("normal", Ids.lookup(II->getNormalDest())); J.attribute("unwind", Ids.lookup(II->getUnwindDest()));
          J.attributeArray("succ", [&]{ for (auto* X : successors(&I)) J.value(Ids.lookup(X)); });
        }
        if (auto* MI = dyn_cast<MemIntrinsic>(CB)) { if (MI->isVolatile()) J.attribute("vol", true); }
      } else if (auto* EV = dyn_cast<ExtractValueInst>(&I)) {
        J.attributeArray("idx", [&]{ for (unsigned i : EV->indices()) J.value((int64_t)i); }); ops();
      } else if (auto* IV = dyn_cast<InsertValueInst>(&I)) {
        J.attributeArray("idx", [&]{ for (unsigned i : IV->indices()) J.value((int64_t)i); }); ops();
      } else if (auto* A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("aty", tyStr(A->getAllocatedType()));
        if (auto sz = A->getAllocationSize(DL)) J.attribute("sz", (int64_t)sz->getFixedValue());
      } else if (auto* LP = dyn_cast<LandingPadInst>(&I)) {
        J.attribute("cleanup", LP->isCleanup());
        J.attributeArray("clauses", [&]{ for (unsigned i = 0; i < LP->getNumClauses(); ++i) { if (LP->isCatch(i)) val(LP->getClause(i)); else J.value("filter"); } });
      } else {
        ops();
        J.attributeArray("oty", [&]{ for (auto& U : I.operands()) J.value(tyStr(U->getType())); });
        if (I.isTerminator()) J.attributeArray("succ", [&]{ for (auto* X : successors(&I)) J.value(Ids.lookup(X)); });
      }
    });
  }
  void function(const Function& F) {
    Ids.clear(); int n = 1;
    for (auto& A : F.args()) Ids[&A] = n++;
    for (auto& B : F) { Ids[&B] = n++; for (auto& I : B) Ids[&I] = n++; }
    J.object([&]{
      J.attribute("t", "fn"); J.attribute("n", F.getName()); J.attribute("d", dem(F));
      if (auto* SP = F.getSubprogram()) {
        J.attribute("file", SP->getFilename()); J.attribute("line", (int64_t)SP->getLine()); J.attribute("short", SP->getName());
        if (SP->getType()) J.attributeArray("sig", [&]{ for (auto* P : SP->getType()->getTypeArray()) J.value(ditype(P)); });
      }
      J.attribute("nounw", F.doesNotThrow());
      J.attribute("linkage", (int64_t)F.getLinkage());
      J.attributeArray("args", [&]{ for (auto& A : F.args()) J.object([&]{ J.attribute("id", Ids[&A]); J.attribute("ty", tyStr(A.getType())); J.attribute("name", A.getName()); if (A.hasStructRetAttr()) J.attribute("sret", true); }); });
      J.attribute("ret", tyStr(F.getReturnType()));
      J.attributeArray("bb", [&]{ for (auto& B : F) J.object([&]{ J.attribute("id", Ids[&B]); J.attributeArray("i", [&]{ for (auto& I : B) { if (isa<DbgInfoIntrinsic>(&I)) continue; inst(I); } }); }); });
    });
  }
};

static std::string ditype(const DIType* T) {
  if (!T) return "void";
  if (auto* D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return ditype(D->getBaseType()) + "*";
      case dwarf::DW_TAG_reference_type: return ditype(D->getBaseType()) + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return ditype(D->getBaseType()) + "&&";
      case dwarf::DW_TAG_const_type: return "const " + ditype(D->getBaseType());
      case dwarf::DW_TAG_volatile_type: return "volatile " + ditype(D->getBaseType());
      case dwarf::DW_TAG_typedef: return ditype(D->getBaseType());
      default: return D->getName().str();
    }
  }
  if (auto* C = dyn_cast<DICompositeType>(T)) {
    if (!C->getIdentifier().empty()) return C->getIdentifier().str();
    std::string s = C->getName().str();
    for (auto* S = C->getScope(); S; S = S->getScope()) if (!S->getName().empty() && !isa<DIFile>(S)) s = S->getName().str() + "::" + s;
    return s;
  }
  return T->getName().str();
}

int main(int argc, char** argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (auto& In : Inputs) {
    auto X = parseIRFile(In, Err, Ctx);
    if (!X) { Err.print("irx", errs()); return 2; }
    if (!M) M = std::move(X);
    else if (Linker::linkModules(*M, std::move(X))) { errs() << "link failed\n"; return 2; }
  }
  std::vector<std::string> src;
  // Collect debug info for class layouts before optimisation drops anything.
  DebugInfoFinder Finder; Finder.processModule(*M);
  std::string Err2; raw_string_ostream ES(Err2);
  std::error_code EC; raw_fd_ostream OS(Out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }

  std::vector<Regex> NI; for (auto& r : NoInl) NI.emplace_back(r);
  Regex KeepR(Keep);

  std::vector<Function*> Direct;
  std::map<std::string, std::vector<std::string>> Calls; // pre-inlining call graph
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    auto& v = Calls[F.getName().str()];
    std::set<std::string> seen;
    for (auto& B : F) for (auto& I : B) {
      for (auto& U : I.operands()) {
        Value* V = U->stripPointerCasts();
        if (auto* G = dyn_cast<Function>(V)) if (!G->isIntrinsic()) {
          bool isCallee = isa<CallBase>(&I) && cast<CallBase>(&I)->isCallee(&U);
          std::string s = (isCallee ? "c:" : "r:") + G->getName().str();
          if (seen.insert(s).second) v.push_back(s);
        }
        if (auto* G = dyn_cast<GlobalVariable>(V)) {
          std::string s = "g:" + G->getName().str();
          if (seen.insert(s).second) v.push_back(s);
        }
      }
    }
  }

  if (!NoFlatten) {
    for (auto& F : *M) {
      if (F.isDeclaration()) continue;
      bool ni = false; for (auto& r : NI) if (r.match(dem(F)) || r.match(F.getName())) { ni = true; break; }
      F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);
      F.addFnAttr(ni ? Attribute::NoInline : Attribute::AlwaysInline);
      for (auto& B : F) for (auto& I : B) if (auto* C = dyn_cast<CallBase>(&I)) { C->removeFnAttr(Attribute::NoInline); }
      // available_externally / linkonce bodies stay as analysis roots
      if (F.hasLinkOnceLinkage() || F.hasAvailableExternallyLinkage()) { F.setLinkage(GlobalValue::WeakAnyLinkage); }
      F.setComdat(nullptr);
      if (F.hasLocalLinkage()) F.setLinkage(GlobalValue::ExternalLinkage);
    }
    for (auto& G : M->globals()) G.setComdat(nullptr);
  }
  if (!Pipeline.empty()) {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, Pipeline)) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  if (!EmitLL.empty()) { std::error_code E2; raw_fd_ostream L(EmitLL, E2); M->print(L, nullptr); }

  const DataLayout& DL = M->getDataLayout();
  auto line = [&](auto f) { json::OStream J(OS); f(J); J.flush(); OS << "\n"; };
  std::set<std::string> seen;
  for (auto* T : Finder.types()) {
    auto* C = dyn_cast<DICompositeType>(T);
    if (!C || C->isForwardDecl()) continue;
    if (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type && C->getTag() != dwarf::DW_TAG_enumeration_type) continue;
    std::string nm = ditype(C);
    if (nm.empty() || !seen.insert(nm).second) continue;
    if (StringRef(nm).starts_with("_ZTS") == false) {}
    line([&](json::OStream& J) { J.object([&]{
      J.attribute("t", C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : "class"); J.attribute("n", nm); J.attribute("d", C->getName()); J.attribute("size", (int64_t)(C->getSizeInBits() / 8));
      J.attributeArray("m", [&]{ for (auto* E : C->getElements()) {
        if (auto* D = dyn_cast<DIDerivedType>(E)) {
          if (D->isStaticMember()) continue;
          if (D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance) {
            int64_t asz = 0; std::string t = ditype(D->getBaseType());
            const DIType* BT = D->getBaseType();
            while (auto* DD = dyn_cast_or_null<DIDerivedType>(BT)) { if (DD->getTag() == dwarf::DW_TAG_typedef || DD->getTag() == dwarf::DW_TAG_const_type || DD->getTag() == dwarf::DW_TAG_volatile_type) BT = DD->getBaseType(); else break; }
            if (BT) { asz = BT->getSizeInBits() / 8; if (auto* CT = dyn_cast<DICompositeType>(BT)) if (CT->getTag() == dwarf::DW_TAG_array_type) t = ditype(CT->getBaseType()) + "[]"; }
            J.array([&]{ J.value(D->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : D->getName()); J.value((int64_t)(D->getOffsetInBits() / 8)); J.value(t); J.value(asz); });
          }
        } else if (auto* EN = dyn_cast<DIEnumerator>(E)) {
          J.array([&]{ J.value(EN->getName()); J.value(EN->getValue().getSExtValue()); });
        }
      } });
      J.attributeArray("virt", [&]{ for (auto* E : C->getElements()) if (auto* S = dyn_cast<DISubprogram>(E)) if (S->getVirtuality()) J.array([&]{ J.value(S->getName()); J.value((int64_t)S->getVirtualIndex()); J.value(S->getLinkageName()); }); });
      J.attributeArray("meth", [&]{ for (auto* E : C->getElements()) if (auto* S = dyn_cast<DISubprogram>(E)) J.array([&]{
        J.value(S->getName()); J.value(S->getLinkageName()); J.value((int64_t)S->getFlags());
        J.array([&]{ if (S->getType()) for (auto* P : S->getType()->getTypeArray()) J.value(ditype(P)); });
        J.value(S->isDeleted());
      }); });
    }); });
  }
  // vtables and constant strings
  for (auto& G : M->globals()) {
    if (!G.hasInitializer()) continue;
    auto* I = G.getInitializer();
    if (G.getName().starts_with("_ZTV")) {
      line([&](json::OStream& J) { J.object([&]{ J.attribute("t", "vt"); J.attribute("n", G.getName());
        J.attributeArray("a", [&]{ if (I->getNumOperands() > 0) if (auto* A = dyn_cast<ConstantAggregate>(I->getOperand(0))) for (auto& U : A->operands()) { auto* V = U->stripPointerCasts(); J.value(isa<Function>(V) ? V->getName() : StringRef("")); } }); }); });
    } else if (auto* A = dyn_cast<ConstantDataArray>(I)) {
      if (A->isString(8) && A->getNumElements() < 4096) line([&](json::OStream& J) { J.object([&]{ J.attribute("t", "str"); J.attribute("n", G.getName()); J.attribute("s", toHex(A->getRawDataValues())); }); });
    } else if (auto* S = dyn_cast<ConstantStruct>(I)) {
      std::string acc; bool ok = S->getNumOperands() > 0;
      for (auto& U : S->operands()) { if (auto* D = dyn_cast<ConstantDataArray>(U)) acc += D->getRawDataValues().str(); else if (isa<ConstantAggregateZero>(U)) { acc += std::string(DL.getTypeAllocSize(U->getType()), '\0'); } else ok = false; }
      if (ok && acc.size() < 4096) line([&](json::OStream& J) { J.object([&]{ J.attribute("t", "str"); J.attribute("n", G.getName()); J.attribute("s", toHex(acc)); }); });
    }
    if (auto* A = dyn_cast<ConstantArray>(I)) { // tables of pointers or ints
      line([&](json::OStream& J) { J.object([&]{ J.attribute("t", "tab"); J.attribute("n", G.getName());
        Dumper D(J, DL); J.attributeArray("a", [&]{ for (auto& U : A->operands()) D.val(U.get()); }); }); });
    }
    if (auto* A = dyn_cast<ConstantDataArray>(I)) if (!A->isString(8) && A->getElementType()->isIntegerTy()) line([&](json::OStream& J) { J.object([&]{ J.attribute("t", "itab"); J.attribute("n", G.getName()); J.attributeArray("a", [&]{ for (unsigned i = 0; i < A->getNumElements(); ++i) J.value(A->getElementAsAPInt(i).getSExtValue()); }); }); });
  }
  for (auto& P : Calls) line([&](json::OStream& J) { J.object([&]{ J.attribute("t", "cg"); J.attribute("n", P.first); J.attributeArray("c", [&]{ for (auto& s : P.second) J.value(s); }); }); });
  size_t n = 0;
  for (auto& F : *M) {
    if (F.isDeclaration()) {
      if (!F.isIntrinsic()) line([&](json::OStream& J) { J.object([&]{ J.attribute("t", "decl"); J.attribute("n", F.getName()); J.attribute("d", dem(F)); J.attribute("nounw", F.doesNotThrow()); J.attribute("noret", F.doesNotReturn()); }); });
      continue;
    }
    if (!KeepR.match(F.getName())) continue;
    ++n;
    line([&](json::OStream& J) { Dumper D(J, DL); D.function(F); });
  }
  errs() << "irx: " << n << " functions\n";
  return 0;
}
