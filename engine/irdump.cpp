// LLVM plugin: dumps a (normalised) module as JSON for the Python analyser.
//   opt -load-pass-plugin irdump.so -passes=irdump -disable-output in.bc > out.json
// Purely structural: it records instructions, operands, CFG, debug locations and data layout.
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;
namespace dwarf = llvm::dwarf;
namespace {
struct Dumper {
  Module &M; const DataLayout &DL; json::OStream J;
  std::map<const Value*, int> Ids; int Next = 0;
  Dumper(Module &M, raw_ostream &OS) : M(M), DL(M.getDataLayout()), J(OS) {}
  static std::string tyStr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }
  static std::string i2s(const APInt &v) { SmallString<32> s; v.toString(s, 10, true); return std::string(s); }
  static std::string f2s(const APFloat &v) {
    if (v.isNaN()) return "nan"; if (v.isInfinity()) return v.isNegative() ? "-inf" : "inf";
    bool lose; APFloat d = v; d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    char buf[64]; snprintf(buf, sizeof buf, "%a", d.convertToDouble()); return buf; }
  void constant(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) { J.object([&]{ J.attribute("k","i"); J.attribute("v", i2s(CI->getValue())); J.attribute("b",(int64_t)CI->getBitWidth()); }); return; }
    if (auto *CF = dyn_cast<ConstantFP>(C)) { J.object([&]{ J.attribute("k","f"); J.attribute("v", f2s(CF->getValueAPF())); }); return; }
    if (isa<ConstantPointerNull>(C)) { J.object([&]{ J.attribute("k","null"); }); return; }
    if (isa<UndefValue>(C)) { J.object([&]{ J.attribute("k","undef"); }); return; }
    if (isa<ConstantAggregateZero>(C)) { J.object([&]{ J.attribute("k","zero"); }); return; }
    if (auto *GV = dyn_cast<GlobalValue>(C)) { J.object([&]{ J.attribute("k","g"); J.attribute("v", GV->getName()); J.attribute("o",(int64_t)0);}); return; }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      APInt Off(64, 0);
      const Value *B = CE->stripAndAccumulateConstantOffsets(DL, Off, true);
      if (auto *GV = dyn_cast<GlobalValue>(B)) { J.object([&]{ J.attribute("k","g"); J.attribute("v", GV->getName()); J.attribute("o",(int64_t)Off.getSExtValue());}); return; }
    }
    if (auto *CA = dyn_cast<ConstantVector>(C)) { (void)CA; }
    J.object([&]{ J.attribute("k","c"); J.attribute("v", tyStr(C->getType())); });
  }
  void operand(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) { constant(C); return; }
    if (auto *BB = dyn_cast<BasicBlock>(V)) { J.object([&]{ J.attribute("k","b"); J.attribute("v", Ids[BB]); }); return; }
    if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) { J.object([&]{ J.attribute("k","m"); }); return; }
    J.object([&]{ J.attribute("k","v"); J.attribute("v", Ids[V]); });
  }
  void flat(const Constant *C, uint64_t Off) { // flattened initializer entries
    Type *T = C->getType();
    if (auto *S = dyn_cast<ConstantStruct>(C)) { auto *L = DL.getStructLayout(S->getType());
      for (unsigned i = 0; i < S->getNumOperands(); i++) flat(S->getOperand(i), Off + L->getElementOffset(i)); return; }
    if (auto *A = dyn_cast<ConstantArray>(C)) { uint64_t sz = DL.getTypeAllocSize(A->getType()->getElementType());
      for (unsigned i = 0; i < A->getNumOperands(); i++) flat(A->getOperand(i), Off + i * sz); return; }
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) { uint64_t sz = D->getElementByteSize();
      for (unsigned i = 0; i < D->getNumElements(); i++) flat(D->getElementAsConstant(i), Off + i * sz); return; }
    if (isa<ConstantAggregateZero>(C)) { J.array([&]{ J.value((int64_t)Off); J.value((int64_t)DL.getTypeAllocSize(T)); J.object([&]{ J.attribute("k","zero"); }); }); return; }
    J.array([&]{ J.value((int64_t)Off); J.value((int64_t)DL.getTypeStoreSize(T)); constant(C); });
  }
  void loc(const Instruction &I) {
    if (const DebugLoc &L = I.getDebugLoc()) { J.attribute("l", (int64_t)L.getLine());
      if (auto *S = dyn_cast_or_null<DIScope>(L.getScope())) J.attribute("f", S->getFilename()); }
  }
  void inst(const Instruction &I) {
    if (isa<DbgInfoIntrinsic>(I)) return;
    J.object([&]{
      J.attribute("i", Ids[&I]); J.attribute("op", I.getOpcodeName()); J.attribute("t", tyStr(I.getType()));
      if (!I.getType()->isVoidTy() && I.getType()->isSized()) J.attribute("sz", (int64_t)DL.getTypeStoreSize(I.getType()));
      loc(I);
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (auto *F = CB->getCalledFunction()) J.attribute("fn", F->getName());
        else { J.attributeBegin("fv"); operand(CB->getCalledOperand()); J.attributeEnd(); }
        J.attributeArray("a", [&]{ for (auto &A : CB->args()) operand(A); });
        int bv = -1; for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->isByValArgument(i)) bv = i; 
        if (bv >= 0) J.attribute("byval", bv);
        if (CB->hasFnAttr(Attribute::NoReturn)) J.attribute("nr", true);
        return;
      }
      if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("a", [&]{ for (unsigned i = 0; i < P->getNumIncomingValues(); i++) J.array([&]{ J.value(Ids[P->getIncomingBlock(i)]); operand(P->getIncomingValue(i)); }); });
        return;
      }
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value*, APInt> Var; APInt Off(64, 0);
        if (G->collectOffset(DL, 64, Var, Off)) {
          J.attributeArray("a", [&]{ operand(G->getPointerOperand()); });
          J.attribute("off", (int64_t)Off.getSExtValue());
          J.attributeArray("var", [&]{ for (auto &kv : Var) J.array([&]{ operand(kv.first); J.value((int64_t)kv.second.getSExtValue()); }); });
        }
        J.attribute("et", tyStr(G->getSourceElementType()));
        return;
      }
      if (auto *A = dyn_cast<AllocaInst>(&I)) { J.attribute("at", tyStr(A->getAllocatedType())); J.attribute("as", (int64_t)DL.getTypeAllocSize(A->getAllocatedType())); J.attribute("n", A->getName()); J.attributeArray("a", [&]{ operand(A->getArraySize()); }); return; }
      if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("st", tyStr(S->getValueOperand()->getType())); J.attribute("sz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType())); }
      if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("p", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *E = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&]{ for (unsigned x : E->indices()) J.value((int64_t)x); });
      if (auto *E = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&]{ for (unsigned x : E->indices()) J.value((int64_t)x); });
      if (auto *SW = dyn_cast<SwitchInst>(&I)) {
        J.attributeArray("a", [&]{ operand(SW->getCondition()); operand(SW->getDefaultDest()); });
        J.attributeArray("cases", [&]{ for (auto &c : SW->cases()) J.array([&]{ constant(c.getCaseValue()); J.value(Ids[c.getCaseSuccessor()]); }); });
        return;
      }
      if (isa<CastInst>(I)) J.attribute("st", tyStr(I.getOperand(0)->getType()));
      J.attributeArray("a", [&]{ for (auto &O : I.operands()) operand(O); });
    });
  }
  void run() {
    J.object([&]{
      J.attributeArray("globals", [&]{
        for (auto &G : M.globals()) J.object([&]{
          J.attribute("n", G.getName()); J.attribute("dn", demangle(G.getName().str())); J.attribute("const", G.isConstant()); J.attribute("decl", G.isDeclaration());
          J.attribute("sz", (int64_t)(G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()) : TypeSize::getFixed(0)));
          if (G.hasInitializer()) J.attributeArray("init", [&]{ flat(G.getInitializer(), 0); });
        });
      });
      J.attributeArray("aliases", [&]{ for (auto &A : M.aliases()) J.array([&]{ J.value(A.getName()); J.value(A.getAliaseeObject() ? A.getAliaseeObject()->getName() : StringRef("")); }); });
      J.attributeArray("functions", [&]{
        for (auto &F : M) {
          if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue;
          Next = 0; Ids.clear();
          for (auto &A : F.args()) Ids[&A] = Next++;
          for (auto &B : F) { Ids[&B] = Next++; for (auto &I : B) Ids[&I] = Next++; }
          J.object([&]{
            J.attribute("n", F.getName()); J.attribute("dn", demangle(F.getName().str()));
            J.attribute("rt", tyStr(F.getReturnType())); J.attribute("decl", F.isDeclaration());
            if (F.hasFnAttribute(Attribute::NoReturn)) J.attribute("nr", true);
            if (auto *SP = F.getSubprogram()) { J.attribute("f", SP->getFilename()); J.attribute("l", (int64_t)SP->getLine());
              J.attribute("spn", SP->getName());
              if (auto *D = SP->getDeclaration()) { if (D->getVirtuality() != 0) J.attribute("virt", true); } 
              if (auto *T = SP->getType()) { auto A = T->getTypeArray(); J.attributeArray("dt", [&]{ for (unsigned i = 0; i < A.size(); i++) J.value(diName(A[i])); }); } }
            J.attributeArray("args", [&]{ for (auto &A : F.args()) J.object([&]{ J.attribute("i", Ids[&A]); J.attribute("n", A.getName()); J.attribute("t", tyStr(A.getType()));
               if (A.hasStructRetAttr()) J.attribute("sret", tyStr(A.getParamStructRetType())); if (A.hasByValAttr()) J.attribute("byval", true); }); });
            if (!F.isDeclaration()) J.attributeArray("blocks", [&]{ for (auto &B : F) J.object([&]{ J.attribute("i", Ids[&B]); J.attribute("n", B.getName()); J.attributeArray("in", [&]{ for (auto &I : B) inst(I); }); }); });
          });
        }
      });
      DebugInfoFinder Fi; Fi.processModule(M);
      J.attributeArray("types", [&]{
        for (DIType *T : Fi.types()) if (auto *C = dyn_cast<DICompositeType>(T)) {
          if (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type) continue;
          if (C->isForwardDecl()) continue;
          J.object([&]{ J.attribute("n", C->getName()); J.attribute("id", C->getIdentifier()); J.attribute("f", C->getFilename()); J.attribute("sz", (int64_t)(C->getSizeInBits()/8));
            J.attributeArray("m", [&]{ for (auto *E : C->getElements()) {
              if (auto *D = dyn_cast<DIDerivedType>(E)) J.object([&]{ J.attribute("n", D->getName()); J.attribute("off", (int64_t)(D->getOffsetInBits()/8));
                J.attribute("sz", (int64_t)(D->getBaseType() ? D->getBaseType()->getSizeInBits()/8 : 0)); J.attribute("t", diName(D->getBaseType()));
                J.attribute("tag", dwarf::TagString(D->getTag())); J.attribute("acc", (int64_t)(D->getFlags() & DINode::FlagAccessibility)); J.attribute("static", D->isStaticMember()); });
              else if (auto *S = dyn_cast<DISubprogram>(E)) J.object([&]{ J.attribute("n", S->getName()); J.attribute("tag","method"); J.attribute("link", S->getLinkageName()); J.attribute("virt", S->getVirtuality() != 0); J.attribute("acc", (int64_t)(S->getFlags() & DINode::FlagAccessibility)); J.attribute("deleted", S->isDeleted()); J.attribute("art", S->isArtificial());
                if (auto *TT = S->getType()) { auto A = TT->getTypeArray(); J.attributeArray("dt", [&]{ for (unsigned i = 0; i < A.size(); i++) J.value(diName(A[i])); }); } });
            } }); });
        }
      });
    });
    outs() << "\n";
  }
  static std::string diName(const DIType *T) {
    if (!T) return "void";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diName(D->getBaseType()) + "*";
      case dwarf::DW_TAG_reference_type: return diName(D->getBaseType()) + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return diName(D->getBaseType()) + "&&";
      case dwarf::DW_TAG_const_type: return "const " + diName(D->getBaseType());
      default: return D->getName().empty() ? diName(D->getBaseType()) : D->getName().str(); }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) if (C->getTag() == dwarf::DW_TAG_array_type) return diName(C->getBaseType()) + "[]";
    return T->getName().str();
  }
};
struct P : PassInfoMixin<P> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) { Dumper(M, outs()).run(); return PreservedAnalyses::all(); }
  static bool isRequired() { return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "irdump", "1", [](PassBuilder &PB) {
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &PM, ArrayRef<PassBuilder::PipelineElement>) {
      if (N == "irdump") { PM.addPass(P()); return true; } return false; }); }};
}
