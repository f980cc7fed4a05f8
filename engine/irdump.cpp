// irdump: link the bitcode of one build configuration, promote allocas to SSA,
// and print a compact JSON description of the module for the Python analyses.
// It performs no optimisation beyond mem2reg, so every source-level branch,
// load, store and call is still present.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/ReplaceConstant.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
using namespace llvm;
using json::Array;
using json::Object;

static std::map<const Value *, int> ids;
static std::map<const BasicBlock *, int> bids;
static const DataLayout *DL;
static std::map<std::string, const StructType *> structs;
static std::map<std::string, const DICompositeType *> dict;

static void noteStruct(const StructType *ST) {
  if (ST->hasName()) structs[ST->getName().str()] = ST;
}
static std::string tystr(Type *T) {
  if (T->isPointerTy()) return "p";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isVoidTy()) return "v";
  if (T->isFloatTy()) return "f32";
  if (T->isDoubleTy()) return "f64";
  if (auto *ST = dyn_cast<StructType>(T)) { if (ST->hasName()) { noteStruct(ST); return "s:" + ST->getName().str(); } }
  if (auto *AT = dyn_cast<ArrayType>(T)) return "a" + std::to_string(AT->getNumElements()) + ":" + tystr(AT->getElementType());
  std::string s; raw_string_ostream os(s); T->print(os); return "?" + s;
}
static json::Value opnd(const Value *V) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    SmallString<40> s; CI->getValue().toString(s, 10, false);
    return Array{"c", std::string(s.str()), (int64_t)CI->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(V)) return Array{"c", "0", 64};
  if (isa<UndefValue>(V)) return Array{"u"};
  if (auto *F = dyn_cast<Function>(V)) return Array{"f", F->getName().str()};
  if (auto *GA = dyn_cast<GlobalAlias>(V)) return opnd(GA->getAliasee()->stripPointerCasts());
  if (auto *G = dyn_cast<GlobalVariable>(V)) return Array{"g", G->getName().str()};
  if (auto *CF = dyn_cast<ConstantFP>(V)) { (void)CF; return Array{"fp"}; }
  if (isa<ConstantAggregateZero>(V)) return Array{"z"};
  auto it = ids.find(V);
  if (it != ids.end()) return Array{"v", it->second};
  if (isa<MetadataAsValue>(V)) return Array{"m"};
  std::string s; raw_string_ostream os(s); V->print(os);
  return Array{"x", s};
}
static json::Value locOf(const Instruction &I) {
  if (const DILocation *L = I.getDebugLoc()) {
    return Array{L->getFilename().str(), (int64_t)L->getLine()};
  }
  return nullptr;
}
static void collectDI(Module &M) {
  DebugInfoFinder F; F.processModule(M);
  for (DIType *T : F.types()) {
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef && D->getBaseType())
        if (auto *C = dyn_cast<DICompositeType>(D->getBaseType()))
          if (!C->getElements().empty()) dict.insert({D->getName().str(), C});
    } else if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (!C->getName().empty() && !C->getElements().empty()) dict.insert({C->getName().str(), C});
    }
  }
}
static std::string stripSuffix(std::string n) {
  for (const char *p : {"struct.", "union.", "class."})
    if (n.rfind(p, 0) == 0) { n = n.substr(strlen(p)); break; }
  size_t d = n.rfind('.');
  if (d != std::string::npos && d + 1 < n.size() && n.find_first_not_of("0123456789", d + 1) == std::string::npos) n = n.substr(0, d);
  return n;
}
int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (int i = 1; i < argc; i++) {
    auto N = parseIRFile(argv[i], Err, Ctx);
    if (!N) { Err.print(argv[0], errs()); return 3; }
    if (!M) M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N))) return 3;
  }
  DL = &M->getDataLayout();
  collectDI(*M);
  {
    SmallVector<Constant *, 64> cs;
    for (auto &G : M->globals()) cs.push_back(&G);
    for (auto &F : M->functions()) cs.push_back(&F);
    convertUsersOfConstantsToInstructions(cs);
  }
  json::OStream J(outs());
  J.objectBegin();
  Object globals;
  for (auto &G : M->globals()) {
    Object g;
    g["type"] = tystr(G.getValueType());
    g["decl"] = G.isDeclaration();
    g["tls"] = G.isThreadLocal();
    g["const"] = G.isConstant();
    g["internal"] = G.hasLocalLinkage();
    g["size"] = (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0);
    if (G.hasInitializer()) {
      Array fr;
      const Constant *C = G.getInitializer();
      // function references and small integer arrays are all the analyses need
      std::vector<const Constant *> st{C}; std::set<const Constant *> seen;
      while (!st.empty()) {
        auto *K = st.back(); st.pop_back();
        if (!seen.insert(K).second) continue;
        if (auto *F = dyn_cast<Function>(K)) fr.push_back(F->getName().str());
        for (auto &O : K->operands()) if (auto *CK = dyn_cast<Constant>(O)) st.push_back(CK);
      }
      g["funcs"] = std::move(fr);
      if (auto *CD = dyn_cast<ConstantDataArray>(C)) {
        if (CD->isString()) g["str"] = json::fixUTF8(CD->getAsString());
        else if (CD->getElementType()->isIntegerTy() && CD->getNumElements() < 256) {
          Array v; for (unsigned i = 0; i < CD->getNumElements(); i++) v.push_back((int64_t)CD->getElementAsInteger(i));
          g["ints"] = std::move(v); g["eltbytes"] = (int64_t)CD->getElementByteSize();
        }
      }
      if (C->isNullValue()) g["zero"] = true;
    }
    globals[G.getName().str()] = std::move(g);
  }
  J.attribute("globals", std::move(globals));
  Array ctors, dtors;
  auto listOf = [&](const char *n, Array &out) {
    if (auto *G = M->getNamedGlobal(n)) if (G->hasInitializer())
      if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer()))
        for (auto &O : CA->operands())
          if (auto *CS = dyn_cast<ConstantStruct>(O)) {
            auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts());
            if (F) out.push_back(F->getName().str());
          }
  };
  listOf("llvm.global_ctors", ctors); listOf("llvm.global_dtors", dtors);
  J.attribute("ctors", std::move(ctors)); J.attribute("dtors", std::move(dtors));
  J.attributeBegin("functions"); J.objectBegin();
  for (auto &F : *M) {
    if (F.isIntrinsic()) continue;
    J.attributeBegin(F.getName()); J.objectBegin();
    J.attribute("decl", F.isDeclaration());
    J.attribute("noreturn", F.doesNotReturn());
    J.attribute("vararg", F.isVarArg());
    J.attribute("internal", F.hasLocalLinkage());
    J.attribute("hidden", F.hasHiddenVisibility());
    J.attribute("ret", tystr(F.getReturnType()));
    if (auto *SP = F.getSubprogram()) { J.attribute("file", SP->getFilename().str()); J.attribute("line", (int64_t)SP->getLine());}
    if (!F.isDeclaration()) {
      removeUnreachableBlocks(F);
      DominatorTree DT(F);
      std::vector<AllocaInst *> al;
      for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(A)) al.push_back(A);
      if (!al.empty()) PromoteMemToReg(al, DT);
      ids.clear(); bids.clear(); int n = 0, b = 0;
      Array args;
      for (auto &A : F.args()) { ids[&A] = n++; args.push_back(Array{A.getName().str(), tystr(A.getType()), A.hasByValAttr() || A.hasStructRetAttr()}); }
      for (auto &B : F) { bids[&B] = b++; for (auto &I : B) ids[&I] = n++; }
      J.attribute("args", std::move(args));
      // names of source-level parameters
      J.attributeBegin("blocks"); J.arrayBegin();
      for (auto &B : F) {
        J.arrayBegin();
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          Object o; o["id"] = ids[&I]; o["ty"] = tystr(I.getType()); o["loc"] = locOf(I);
          Array ops;
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            o["op"] = "alloca"; o["aty"] = tystr(A->getAllocatedType());
            auto sz = A->getAllocationSize(*DL); o["size"] = sz ? (int64_t)sz->getFixedValue() : -1; o["name"] = A->getName().str();
          } else if (auto *L = dyn_cast<LoadInst>(&I)) {
            o["op"] = "load"; ops.push_back(opnd(L->getPointerOperand())); o["sz"] = (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue();
            if (L->isAtomic()) o["atomic"] = true; if (L->isVolatile()) o["vol"] = true;
          } else if (auto *S = dyn_cast<StoreInst>(&I)) {
            o["op"] = "store"; ops.push_back(opnd(S->getValueOperand())); ops.push_back(opnd(S->getPointerOperand()));
            o["sz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue(); o["vty"] = tystr(S->getValueOperand()->getType());
            if (S->isAtomic()) o["atomic"] = true;
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            o["op"] = "gep"; ops.push_back(opnd(G->getPointerOperand())); o["inb"] = G->isInBounds(); o["sty"] = tystr(G->getSourceElementType());
            Array path;
            bool first = true;
            for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
              if (StructType *ST = GTI.getStructTypeOrNull()) {
                noteStruct(ST);
                unsigned f = cast<ConstantInt>(GTI.getOperand())->getZExtValue();
                path.push_back(Array{"f", ST->hasName() ? ST->getName().str() : "anon", (int64_t)f, (int64_t)DL->getStructLayout(ST)->getElementOffset(f)});
              } else {
                path.push_back(Array{"i", (int64_t)DL->getTypeAllocSize(GTI.getIndexedType()).getFixedValue(), opnd(GTI.getOperand()), first ? 1 : 0});
              }
              first = false;
            }
            o["path"] = std::move(path);
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            o["op"] = "phi"; Array in;
            for (unsigned k = 0; k < P->getNumIncomingValues(); k++) in.push_back(Array{bids[P->getIncomingBlock(k)], opnd(P->getIncomingValue(k))});
            o["in"] = std::move(in);
          } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
            o["op"] = "icmp"; o["pred"] = ICmpInst::getPredicateName(C->getPredicate()).str(); ops.push_back(opnd(C->getOperand(0))); ops.push_back(opnd(C->getOperand(1)));
            o["w"] = (int64_t)(C->getOperand(0)->getType()->isPointerTy() ? 64 : C->getOperand(0)->getType()->getScalarSizeInBits());
          } else if (auto *C = dyn_cast<FCmpInst>(&I)) {
            o["op"] = "fcmp"; ops.push_back(opnd(C->getOperand(0))); ops.push_back(opnd(C->getOperand(1)));
          } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
            o["op"] = "br"; Array s;
            for (unsigned k = 0; k < BI->getNumSuccessors(); k++) s.push_back(bids[BI->getSuccessor(k)]);
            o["succ"] = std::move(s);
            if (BI->isConditional()) ops.push_back(opnd(BI->getCondition()));
          } else if (auto *SI = dyn_cast<SwitchInst>(&I)) {
            o["op"] = "switch"; ops.push_back(opnd(SI->getCondition())); o["def"] = bids[SI->getDefaultDest()];
            Array cs; for (auto &c : SI->cases()) cs.push_back(Array{opnd(c.getCaseValue()), bids[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
          } else if (auto *R = dyn_cast<ReturnInst>(&I)) {
            o["op"] = "ret"; if (R->getReturnValue()) ops.push_back(opnd(R->getReturnValue()));
          } else if (isa<UnreachableInst>(I)) { o["op"] = "unreachable";
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            o["op"] = "call";
            if (CB->isInlineAsm()) o["fn"] = "<asm>";
            else if (auto *CF = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCastsAndAliases())) o["fn"] = CF->getName().str();
            else { o["fn"] = nullptr; o["callee"] = opnd(CB->getCalledOperand()); }
            for (auto &A : CB->args()) ops.push_back(opnd(A));
            o["noret"] = CB->doesNotReturn();
            if (auto *II = dyn_cast<InvokeInst>(&I)) { o["op"] = "invoke"; o["succ"] = Array{bids[II->getNormalDest()], bids[II->getUnwindDest()]}; }
          } else if (auto *SL = dyn_cast<SelectInst>(&I)) {
            o["op"] = "select"; for (auto &x : SL->operands()) ops.push_back(opnd(x));
          } else if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
            o["op"] = BO->getOpcodeName(); for (auto &x : BO->operands()) ops.push_back(opnd(x));
          } else if (auto *CI = dyn_cast<CastInst>(&I)) {
            o["op"] = CI->getOpcodeName(); ops.push_back(opnd(CI->getOperand(0))); o["from"] = tystr(CI->getSrcTy());
          } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
            o["op"] = "extractvalue"; ops.push_back(opnd(EV->getAggregateOperand())); o["idx"] = (int64_t)EV->getIndices()[0];
          } else if (auto *AR = dyn_cast<AtomicRMWInst>(&I)) {
            o["op"] = "atomicrmw"; o["rmw"] = AtomicRMWInst::getOperationName(AR->getOperation()).str(); ops.push_back(opnd(AR->getPointerOperand())); ops.push_back(opnd(AR->getValOperand()));
          } else {
            o["op"] = I.getOpcodeName(); for (auto &x : I.operands()) ops.push_back(opnd(x));
          }
          o["ops"] = std::move(ops);
          J.value(std::move(o));
        }
        J.arrayEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  for (auto *ST : M->getIdentifiedStructTypes()) noteStruct(ST);
  Object sts;
  for (auto &kv : structs) {
    const StructType *ST = kv.second; if (ST->isOpaque()) continue;
    auto *SL = DL->getStructLayout(const_cast<StructType *>(ST));
    std::map<uint64_t, std::string> names;
    auto it = dict.find(stripSuffix(kv.first));
    if (it != dict.end())
      for (auto *E : it->second->getElements()) if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_member) names[D->getOffsetInBits() / 8] = D->getName().str();
    Array fs;
    for (unsigned i = 0; i < ST->getNumElements(); i++) {
      uint64_t off = SL->getElementOffset(i);
      Type *ET = ST->getElementType(i);
      fs.push_back(Array{names.count(off) ? names[off] : ("#" + std::to_string(i)), (int64_t)off, (int64_t)DL->getTypeAllocSize(ET).getFixedValue(), tystr(ET)});
    }
    sts[kv.first] = Object{{"size", (int64_t)SL->getSizeInBytes()}, {"fields", std::move(fs)}};
  }
  J.attribute("structs", std::move(sts));
  J.objectEnd();
  return 0;
}
