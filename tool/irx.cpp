// irx: turns one translation unit's LLVM bitcode (clang -O0, no passes run) into a JSON
// description of "root" functions (every function whose address is taken, plus PyInit_*),
// after inlining project helpers into them and promoting locals to SSA.
//
// What is inlined:   functions defined in the project's own sources (by debug-info file), and
//                    library templates that (transitively) call project code, the Python C API
//                    or anything else that is not pure library code.
// What is kept:      std:: container members (modelled as events by the checkers), CPython
//                    static inlines (modelled as API), third-party headers.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/FunctionAttrs.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <map>
#include <set>
#include <functional>
using namespace llvm;

static cl::list<std::string> Ins(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::Required);
static cl::opt<std::string> Proj("project", cl::desc("prefix of project source files"), cl::Required);
static cl::opt<bool> Vec("vector", cl::desc("vector mode: keep the block kernels and feature tests as functions, inline everything else of the project and the compiler's intrinsics headers"));

static cl::opt<bool> MM("mm", cl::desc("vector mode: inline the intrinsics too"));

static std::string fileOf(const DISubprogram *S) {
  if (!S || !S->getFile()) return "";
  SmallString<256> P;
  if (S->getFilename().starts_with("/")) return S->getFilename().str();
  return (S->getDirectory() + "/" + S->getFilename()).str();
}
static std::string normPath(std::string P) {
  // collapse a/../b and ./
  SmallVector<StringRef, 32> parts, outp;
  StringRef(P).split(parts, '/');
  for (auto &x : parts) {
    if (x == "." || x == "") continue;
    if (x == ".." && !outp.empty()) { outp.pop_back(); continue; }
    outp.push_back(x);
  }
  std::string r;
  for (auto &x : outp) { r += "/"; r += x.str(); }
  return r;
}
enum Cat { PROJECT, THIRD, CPYTHON, LIB, UNKNOWN };
static Cat catOf(const Function &F) {
  std::string f = normPath(fileOf(F.getSubprogram()));
  if (f.empty()) {
    return UNKNOWN;
  }
  if (StringRef(f).starts_with(Proj.getValue())) {
    if (f.find("/utils/include/") != std::string::npos) return THIRD;
    return PROJECT;
  }
  if (f.find("/python3") != std::string::npos) return CPYTHON;
  return LIB;
}

static std::map<std::string, std::string> demCache;
static const std::string &dem(const std::string &n) {
  auto it = demCache.find(n);
  if (it != demCache.end()) return it->second;
  return demCache[n] = demangle(n);
}

// library functions that stay as call events (never inlined into project code)
static bool isTinyStd(const std::string &d) {
  static const char *keys[] = {"std::max<", "std::min<", "std::move<", "std::forward<", "std::swap<", "std::exchange<", "std::addressof<",
    "std::__addressof<", "std::clamp<", "std::as_const<", "std::abs", 
    "std::__iterator_category<", "std::data<", "std::size<", "std::begin<", "std::end<", "std::construct_at<", "std::__niter_base<"};
  int depth = 0; size_t start = 0;
  for (size_t i = 0; i < d.size(); ++i) {
    char c = d[i];
    if (c == '<') depth++;
    else if (c == '>') { if (i && d[i-1] != '-') depth--; }
    else if (c == '(' && depth == 0) break;
    else if (c == ' ' && depth == 0) start = i + 1;
  }
  while (start < d.size() && (d[start] == '*' || d[start] == '&')) ++start;
  for (auto k : keys) if (d.compare(start, strlen(k), k) == 0) return true;
  return false;
}
static bool isContainerEvent(const std::string &d) {
  static const char *keys[] = {
    "std::vector<", "std::__cxx11::list<", "std::_List_iterator<", "std::_List_const_iterator<",
    "__gnu_cxx::__normal_iterator<", "std::__cxx11::basic_string<", "std::allocator<",
    "AlignedAllocator<", "ankerl::", "std::unique_lock<", "std::lock_guard<", "std::mutex",
    "std::unordered_map<", "std::initializer_list<", "std::reverse_iterator<"};
  for (auto k : keys) {
    size_t p = d.find(k);
    if (p == std::string::npos) continue;
    // member of that class: prefix must occur before the first '(' and outside template args
    size_t par = d.find('(');
    // strip leading return type of templated members: find last space at depth 0 before '('
    int depth = 0; size_t start = 0;
    for (size_t i = 0; i < d.size(); ++i) {
      char c = d[i];
      if (c == '<') depth++;
      else if (c == '>') { if (i && d[i-1] != '-') depth--; }
      else if (c == '(' && depth == 0) break;
      else if (c == ' ' && depth == 0) { if (i >= 8 && d.compare(i-8, 8, "operator") == 0) break; start = i + 1; }
    }
    (void)par;
    while (start < d.size() && (d[start] == '*' || d[start] == '&')) ++start;
    if (d.compare(start, strlen(k), k) == 0) return true;
  }
  return false;
}

struct Dumper {
  Module &M;
  raw_ostream &OS;
  json::OStream J;
  std::map<const DILocation *, int> locIds;
  std::vector<const DILocation *> locs;
  DenseMap<const Value *, int> ids;
  DenseMap<const BasicBlock *, int> bbs;
  int next = 0;
  Dumper(Module &M, raw_ostream &OS) : M(M), OS(OS), J(OS) {}

  int locId(const DebugLoc &D) {
    const DILocation *L = D.get();
    if (!L) return -1;
    auto it = locIds.find(L);
    if (it != locIds.end()) return it->second;
    int i = locs.size();
    locs.push_back(L); locIds[L] = i;
    if (auto *P = L->getInlinedAt()) { locId(DebugLoc(P)); }
    return i;
  }
  static std::string ty(Type *T) {
    std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
  }
  std::string opnd(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return cst(C);
    if (auto *B = dyn_cast<BasicBlock>(V)) return "bb:" + std::to_string(bbs.lookup(B));
    if (isa<MetadataAsValue>(V)) return "md";
    if (isa<InlineAsm>(V)) return "asm";
    auto it = ids.find(V);
    if (it == ids.end()) return "?";
    return "%" + std::to_string(it->second);
  }
  std::string cst(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      if (CI->getBitWidth() == 1) return CI->isZero() ? "c:0" : "c:1";
      SmallString<32> s; CI->getValue().toStringSigned(s); return ("c:" + s).str();
    }
    if (isa<ConstantPointerNull>(C)) return "null";
    if (isa<UndefValue>(C)) return "undef";
    if (auto *G = dyn_cast<GlobalValue>(C)) return "@" + G->getName().str();
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      APInt off(64, 0);
      if (CE->getType()->isPointerTy()) {
        const Value *B = CE->stripAndAccumulateConstantOffsets(M.getDataLayout(), off, true);
        if (auto *G = dyn_cast<GlobalValue>(B))
          return "@" + G->getName().str() + "+" + std::to_string(off.getSExtValue());
      }
      if (CE->getOpcode() == Instruction::IntToPtr) return "i2p(" + cst(CE->getOperand(0)) + ")";
      if (CE->getOpcode() == Instruction::PtrToInt) return "p2i(" + cst(CE->getOperand(0)) + ")";
      return std::string("ce:") + CE->getOpcodeName();
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
      SmallString<32> s; CF->getValueAPF().toString(s); return ("f:" + s).str();
    }
    if (isa<ConstantAggregateZero>(C)) return "zero";
    if (Vec && C->getType()->isVectorTy() && isa<FixedVectorType>(C->getType())) {
      unsigned n = cast<FixedVectorType>(C->getType())->getNumElements();
      std::string r = "v:";
      for (unsigned i = 0; i < n; ++i) {
        auto *E = C->getAggregateElement(i);
        if (i) r += ",";
        if (auto *CI = dyn_cast_or_null<ConstantInt>(E)) { SmallString<32> t; CI->getValue().toStringSigned(t); r += t.str(); }
        else r += "u";
      }
      return r;
    }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
      if (CD->isString()) return "str";
      return "cd";
    }
    return "cst";
  }
  json::Value initVal(const Constant *C, int depth = 0) {
    if (depth > 6) return "deep";
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
      if (CD->isCString()) return json::Object{{"s", json::fixUTF8(CD->getAsCString())}};
      if (CD->isString()) return json::Object{{"s", json::fixUTF8(CD->getAsString())}};
      json::Array A;
      for (unsigned i = 0; i < CD->getNumElements() && i < 4096; ++i) A.push_back(cst(CD->getElementAsConstant(i)));
      return A;
    }
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C)) {
      json::Array A;
      for (unsigned i = 0; i < C->getNumOperands(); ++i) A.push_back(initVal(cast<Constant>(C->getOperand(i)), depth + 1));
      return A;
    }
    return cst(C);
  }

  void dumpFn(Function &F) {
    ids.clear(); bbs.clear(); next = 0;
    for (auto &A : F.args()) ids[&A] = next++;
    int b = 0;
    for (auto &B : F) bbs[&B] = b++;
    for (auto &I : instructions(F)) if (!I.getType()->isVoidTy()) ids[&I] = next++;
    J.objectBegin();
    J.attribute("name", F.getName());
    J.attribute("dem", json::fixUTF8(dem(F.getName().str())));
    J.attribute("file", normPath(fileOf(F.getSubprogram())));
    J.attribute("line", F.getSubprogram() ? (int)F.getSubprogram()->getLine() : 0);
    J.attribute("dname", F.getSubprogram() ? F.getSubprogram()->getName() : "");
    J.attribute("ret", ty(F.getReturnType()));
    J.attribute("nounwind", F.doesNotThrow());
    J.attributeArray("args", [&] { for (auto &A : F.args()) J.value(ty(A.getType())); });
    J.attributeArray("argn", [&] {
      // names from the subprogram's retained argument variables
      std::map<unsigned, std::string> nm;
      if (auto *S = F.getSubprogram())
        for (auto *N : S->getRetainedNodes())
          if (auto *V = dyn_cast<DILocalVariable>(N)) if (V->getArg()) nm[V->getArg()] = V->getName().str();
      for (unsigned i = 1; i <= F.arg_size(); ++i) J.value(nm.count(i) ? nm[i] : "");
    });
    J.attributeArray("bbs", [&] {
      for (auto &B : F) {
        J.arrayBegin();
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          dumpInst(I);
        }
        J.arrayEnd();
      }
    });
    J.objectEnd();
  }
  void dumpInst(Instruction &I) {
    J.arrayBegin();
    J.value(I.getOpcodeName());
    J.value(I.getType()->isVoidTy() ? -1 : ids.lookup(&I));
    J.value(ty(I.getType()));
    J.value(locId(I.getDebugLoc()));
    // operands
    J.arrayBegin();
    if (auto *P = dyn_cast<PHINode>(&I)) {
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
        J.value(opnd(P->getIncomingValue(i)));
        J.value(bbs.lookup(P->getIncomingBlock(i)));
      }
    } else if (auto *CB = dyn_cast<CallBase>(&I)) {
      for (auto &A : CB->args()) J.value(opnd(A));
    } else if (auto *B = dyn_cast<BranchInst>(&I)) {
      if (B->isConditional()) J.value(opnd(B->getCondition()));
      for (unsigned i = 0; i < B->getNumSuccessors(); ++i) J.value(bbs.lookup(B->getSuccessor(i)));
    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
      J.value(opnd(S->getCondition()));
      J.value(bbs.lookup(S->getDefaultDest()));
      for (auto &C : S->cases()) { J.value(cst(C.getCaseValue())); J.value(bbs.lookup(C.getCaseSuccessor())); }
    } else {
      for (auto &O : I.operands()) J.value(opnd(O));
    }
    J.arrayEnd();
    // extras
    J.objectBegin();
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      if (auto *C = CB->getCalledFunction()) {
        J.attribute("f", C->getName());
        if (C->isIntrinsic()) J.attribute("intr", true);
      } else if (auto *GA = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
        J.attribute("f", GA->getName());
      } else {
        J.attribute("ind", opnd(CB->getCalledOperand()));
        if (auto *IA = dyn_cast<InlineAsm>(CB->getCalledOperand())) { J.attribute("asm", json::fixUTF8(IA->getAsmString())); J.attribute("cons", IA->getConstraintString()); }
      }
      if (Vec) J.attributeArray("tys", [&] { for (auto &A : CB->args()) J.value(ty(A->getType())); });
      if (CB->doesNotThrow()) J.attribute("nu", true);
      if (auto *II = dyn_cast<InvokeInst>(&I)) {
        J.attributeArray("to", [&] { J.value(bbs.lookup(II->getNormalDest())); J.value(bbs.lookup(II->getUnwindDest())); });
      }
    } else if (auto *C = dyn_cast<CmpInst>(&I)) {
      J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      J.attribute("oty", ty(C->getOperand(0)->getType()));
    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      J.attribute("sty", ty(G->getSourceElementType()));
      APInt off(64, 0);
      if (G->accumulateConstantOffset(M.getDataLayout(), off)) J.attribute("off", off.getSExtValue());
      if (G->isInBounds()) J.attribute("inb", true);
      J.attribute("esz", (int64_t)M.getDataLayout().getTypeAllocSize(G->getSourceElementType()).getKnownMinValue());
    } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
      J.attribute("aty", ty(A->getAllocatedType()));
      J.attribute("asz", (int64_t)M.getDataLayout().getTypeAllocSize(A->getAllocatedType()).getKnownMinValue());
      if (auto *CI = dyn_cast<ConstantInt>(A->getArraySize())) J.attribute("n", CI->getSExtValue());
      for (auto *D : findDbgDeclares(A)) { J.attribute("var", D->getVariable()->getName()); 
        if (auto *T = D->getVariable()->getType()) J.attribute("vty", T->getName()); break; }
      J.attribute("al", (int)A->getAlign().value());
    } else if (auto *L = dyn_cast<LoadInst>(&I)) {
      J.attribute("al", (int)L->getAlign().value());
      if (L->isVolatile()) J.attribute("vol", true);
    } else if (auto *S = dyn_cast<StoreInst>(&I)) {
      J.attribute("al", (int)S->getAlign().value());
      J.attribute("vty", ty(S->getValueOperand()->getType()));
    } else if (auto *C = dyn_cast<CastInst>(&I)) {
      J.attribute("from", ty(C->getSrcTy()));
    } else if (auto *BO = dyn_cast<OverflowingBinaryOperator>(&I)) {
      if (BO->hasNoSignedWrap()) J.attribute("nsw", true);
      if (BO->hasNoUnsignedWrap()) J.attribute("nuw", true);
    } else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
      J.attributeArray("idx", [&] { for (auto i : E->indices()) J.value((int)i); });
    } else if (auto *E = dyn_cast<InsertValueInst>(&I)) {
      J.attributeArray("idx", [&] { for (auto i : E->indices()) J.value((int)i); });
    } else if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
      J.attributeArray("mask", [&] { for (int m : SV->getShuffleMask()) J.value(m); });
    } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
      if (LP->isCleanup()) J.attribute("cleanup", true);
      J.attributeArray("clauses", [&] { for (unsigned i = 0; i < LP->getNumClauses(); ++i) J.value(cst(LP->getClause(i))); });
    }
    J.objectEnd();
    J.arrayEnd();
  }

  void dumpStructs() {
    // layouts of every C++ struct/class with debug info that is reachable; name -> [(member,offset,size,typename,isPtrTo)]
    DebugInfoFinder Fi; Fi.processModule(M);
    std::set<std::string> seen;
    J.attributeObject("structs", [&] {
      for (auto *T : Fi.types()) {
        auto *C = dyn_cast<DICompositeType>(T);
        if (!C || C->getName().empty()) continue;
        if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_class_type) continue;
        std::string file = C->getFile() ? normPath((C->getFilename().starts_with("/") ? C->getFilename().str() : (C->getDirectory() + "/" + C->getFilename()).str())) : "";
        bool isProj = StringRef(file).starts_with(Proj.getValue()) || C->getName() == "PyMethodDef" || C->getName() == "_typeobject" ||
          C->getName() == "PySequenceMethods" || C->getName() == "PyMappingMethods" || C->getName() == "PyBufferProcs" || C->getName() == "PyNumberMethods" || C->getName() == "Py_buffer"
          || C->getName() == "_object" || C->getName() == "PyMemberDef" || C->getName() == "PyListObject" || C->getName() == "PyModuleDef";
        if (!isProj) continue;
        if (C->getElements().empty()) continue;
        if (!seen.insert(C->getName().str()).second) continue;
        J.attributeArray(C->getName(), [&] {
          for (auto *E : C->getElements()) {
            auto *D = dyn_cast<DIDerivedType>(E);
            if (!D || D->getTag() != dwarf::DW_TAG_member || D->isStaticMember()) continue;
            std::string tn, pn;
            const DIType *B = D->getBaseType();
            const DIType *S = B;
            while (S) {
              auto *DD = dyn_cast<DIDerivedType>(S);
              if (DD && (DD->getTag() == dwarf::DW_TAG_typedef || DD->getTag() == dwarf::DW_TAG_const_type)) { if (tn.empty()) tn = DD->getName().str(); S = DD->getBaseType(); continue; }
              break;
            }
            if (S) {
              if (auto *DD = dyn_cast<DIDerivedType>(S)) {
                if (DD->getTag() == dwarf::DW_TAG_pointer_type) {
                  pn = "void"; const DIType *P = DD->getBaseType();
                  while (P) { auto *PD = dyn_cast<DIDerivedType>(P); if (PD && (PD->getTag() == dwarf::DW_TAG_typedef || PD->getTag() == dwarf::DW_TAG_const_type)) { P = PD->getBaseType(); continue; } break; }
                  if (P) pn = P->getName().str();
                }
              } else if (tn.empty()) tn = S->getName().str();
              if (tn.empty()) tn = S->getName().str();
            }
            J.arrayBegin(); J.value(D->getName()); J.value((int64_t)D->getOffsetInBits() / 8); J.value((int64_t)D->getSizeInBits() / 8); J.value(tn); J.value(pn); J.arrayEnd();
          }
        });
      }
    });
  }
};

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err;
  // Link the units.  Inline/COMDAT definitions are made private to their unit first: the project
  // defines different inline functions of the same name in different units.
  std::unique_ptr<Module> M;
  for (auto &In : Ins) {
    auto N = parseIRFile(In, Err, Ctx);
    if (!N) { Err.print("irx", errs()); return 2; }
    for (auto &F : *N) if (!F.isDeclaration() && F.hasLinkOnceLinkage()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); }
    for (auto &G : N->globals()) if (!G.isDeclaration() && G.hasLinkOnceLinkage() && !G.getName().starts_with("_ZT")) { G.setComdat(nullptr); G.setLinkage(GlobalValue::InternalLinkage); G.setVisibility(GlobalValue::DefaultVisibility); }
    if (!M) M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N))) { errs() << "link failed: " << In << "\n"; return 2; }
  }

  // 1. C functions do not throw; -O0 leaves no attributes in the way.
  for (auto &F : *M) {
    StringRef N = F.getName();
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    if (F.isDeclaration()) {
      bool cxx = N.starts_with("_Z");
      bool special = N.starts_with("__cxa_") || N.starts_with("_Unwind") || N == "__clang_call_terminate" || N.starts_with("__gxx");
      if (!cxx && !special) F.setDoesNotThrow();
    }
  }
  // roots: address taken (outside of calls) or PyInit_* / global ctors
  std::set<Function *> roots;
  std::map<Function *, Cat> cat;
  for (auto &F : *M) cat[&F] = catOf(F);
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (cat[&F] != PROJECT) continue;
    bool addr = F.hasAddressTaken(nullptr, false, true, true, true, true);
    if (addr || F.getName().starts_with("PyInit_")) roots.insert(&F);
    else if (!F.hasLocalLinkage() && !F.hasLinkOnceLinkage() && F.user_empty()) roots.insert(&F);
  }
  // project functions with external linkage that are called from elsewhere (other TUs) are roots too
  for (auto &F : *M) {
    if (F.isDeclaration() || cat[&F] != PROJECT) continue;
    if (F.hasExternalLinkage()) roots.insert(&F);
  }
  // 2. internalise so that attribute inference sees exact definitions
  for (auto &F : *M) if (!F.isDeclaration() && !roots.count(&F)) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility); }
  for (auto &F : *M) if (!F.isDeclaration()) { F.setComdat(nullptr); }

  // 3. which library functions must be inlined: those that reach project code / the C API
  std::map<Function *, bool> reachMemo;
  std::function<bool(Function *, std::set<Function *> &)> reach = [&](Function *F, std::set<Function *> &st) -> bool {
    if (F->isDeclaration()) {
      StringRef N = F->getName();
      return N.starts_with("Py") || N.starts_with("_Py");
    }
    auto it = reachMemo.find(F);
    if (it != reachMemo.end()) return it->second;
    if (!st.insert(F).second) return false;
    bool r = false;
    for (auto &I : instructions(*F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB) continue;
      auto *C = CB->getCalledFunction();
      if (!C) continue;
      if (cat[C] == PROJECT && !C->isDeclaration()) {
        // allocator helpers etc. are project code but pure
        if (isContainerEvent(dem(C->getName().str()))) continue;
        r = true; break;
      }
      if (reach(C, st)) { r = true; break; }
    }
    reachMemo[F] = r;
    return r;
  };
  // vectorised kernels on raw memory (no Python, no containers): kept as calls and dumped on their own
  std::map<Function *, bool> vecMemo;
  std::function<bool(Function *, std::set<Function *> &)> hasVec = [&](Function *F, std::set<Function *> &st) -> bool {
    if (F->isDeclaration()) return false;
    auto it = vecMemo.find(F);
    if (it != vecMemo.end()) return it->second;
    if (!st.insert(F).second) return false;
    bool r = false;
    for (auto &I : instructions(*F)) {
      if (I.getType()->isVectorTy()) { r = true; break; }
      if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = CB->getCalledFunction()) if (hasVec(C, st)) { r = true; break; }
    }
    return vecMemo[F] = r;
  };
  std::map<Function *, bool> contMemo;
  std::function<bool(Function *, std::set<Function *> &)> hasCont = [&](Function *F, std::set<Function *> &st) -> bool {
    if (isContainerEvent(dem(F->getName().str()))) return true;
    if (F->isDeclaration()) return false;
    auto it = contMemo.find(F);
    if (it != contMemo.end()) return it->second;
    if (!st.insert(F).second) return false;
    bool r = false;
    for (auto &I : instructions(*F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (CB && !CB->getCalledFunction() && !CB->isInlineAsm()) { r = true; break; }
      if (CB && CB->getCalledFunction() && hasCont(CB->getCalledFunction(), st)) { r = true; break; }
    }
    return contMemo[F] = r;
  };
  std::map<Function *, bool> pyMemo;
  std::function<bool(Function *, std::set<Function *> &)> reachPy = [&](Function *F, std::set<Function *> &st) -> bool {
    if (cat[F] == CPYTHON || F->getName().starts_with("Py") || F->getName().starts_with("_Py")) return true;
    if (F->isDeclaration()) return false;
    auto it = pyMemo.find(F);
    if (it != pyMemo.end()) return it->second;
    if (!st.insert(F).second) return false;
    bool r = false;
    for (auto &I : instructions(*F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (CB && CB->getCalledFunction() && reachPy(CB->getCalledFunction(), st)) { r = true; break; }
    }
    return pyMemo[F] = r;
  };
  std::set<Function *> kernels;
  std::map<Function *, bool> cpuMemo;
  std::function<bool(Function *, std::set<Function *> &)> hasCpuid = [&](Function *F, std::set<Function *> &st) -> bool {
    if (F->getName().starts_with("llvm.x86.xgetbv")) return true;
    if (F->isDeclaration()) return false;
    auto it = cpuMemo.find(F);
    if (it != cpuMemo.end()) return it->second;
    if (!st.insert(F).second) return false;
    bool r = false;
    for (auto &I : instructions(*F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB) continue;
      if (auto *IA = dyn_cast<InlineAsm>(CB->getCalledOperand())) { if (IA->getAsmString().find("cpuid") != std::string::npos || IA->getAsmString().find("xgetbv") != std::string::npos) { r = true; break; } continue; }
      if (CB->getCalledFunction() && hasCpuid(CB->getCalledFunction(), st)) { r = true; break; }
    }
    return cpuMemo[F] = r;
  };
  auto vecKeep = [&](Function *F) {
    std::string n = F->getSubprogram() ? F->getSubprogram()->getName().str() : "";
    n = n.substr(0, n.find('<'));
    static const char *k[] = {"simdMemCpy", "simdMemCpyAligned", "simdReverse", "fast_memcpy", "qReverse"};
    for (auto x : k) if (n == x) return true;
    std::set<Function *> st;
    return !F->getReturnType()->isVoidTy() && hasCpuid(F, st);
  };
  if (Vec) {
    auto compilerHeader = [&](Function *F) {
      if (!F->getSubprogram()) return MM && F->getName().contains("_mm");
      return normPath(fileOf(F->getSubprogram())).find("/lib/clang/") != std::string::npos;
    };
    std::set<std::string> kernelFiles;     // third-party files that define a kernel are part of what is judged
    for (auto &F : *M) if (!F.isDeclaration() && F.getSubprogram() && vecKeep(&F)) kernelFiles.insert(normPath(fileOf(F.getSubprogram())));
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::AlwaysInline);
      const std::string &d = dem(F.getName().str());
      Cat c = cat[&F];
      if (c == THIRD && F.getSubprogram() && kernelFiles.count(normPath(fileOf(F.getSubprogram())))) c = PROJECT;
      bool inl = false;
      if (compilerHeader(&F)) inl = true;
      else if (c == PROJECT || c == THIRD) {
        std::set<Function *> s1;
        bool keep = vecKeep(&F);
        if (keep || (c == THIRD && hasVec(&F, s1))) roots.insert(&F);
        inl = !keep && (c == PROJECT) && !isContainerEvent(d);
      } else inl = isTinyStd(d);
      if (roots.count(&F)) inl = false;
      F.addFnAttr(inl ? Attribute::AlwaysInline : Attribute::NoInline);
    }
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(false));
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(EarlyCSEPass(false));
    FPM.addPass(InstSimplifyPass());
    FPM.addPass(ADCEPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
    for (auto &F : *M) if (!F.isDeclaration()) removeUnreachableBlocks(F);
    // recursion and third-party code that stays: dump whatever is left of the project
    for (auto &F : *M) if (!F.isDeclaration() && cat.count(&F) && (cat[&F] == PROJECT) && !F.use_empty()) roots.insert(&F);
  }
  if (!Vec) for (auto &F : *M) {
    if (F.isDeclaration() || cat[&F] != PROJECT || F.arg_size() == 0 || F.hasAddressTaken(nullptr, false, true, true, true, true)) continue;
    std::set<Function *> s1, s2, s3;
    bool ptr = false;
    for (auto &A : F.args()) if (A.getType()->isPointerTy()) ptr = true;
    if (ptr && hasVec(&F, s1) && !hasCont(&F, s2) && !reachPy(&F, s3)) kernels.insert(&F);
  }
  std::map<std::string, int> stats;
  if (!Vec) {
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::AlwaysInline);
    const std::string &d = dem(F.getName().str());
    Cat c = cat[&F];
    bool inl = false;
    if (c == PROJECT) inl = !isContainerEvent(d);
    else if (c == LIB) {
      if (!isContainerEvent(d)) { std::set<Function *> st; inl = reach(&F, st) || isTinyStd(d); }
    }
    if (kernels.count(&F)) { inl = false; stats["kernels"]++; }
    if (inl) { F.addFnAttr(Attribute::AlwaysInline); stats["inlined"]++; }
    else F.addFnAttr(Attribute::NoInline);
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  {
    ModulePassManager MPM;
    MPM.addPass(createModuleToPostOrderCGSCCPassAdaptor(PostOrderFunctionAttrsPass()));
    MPM.run(*M, MAM);
  }
  // calls/invokes to nounwind functions: mark, turn invokes into calls
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    SmallVector<InvokeInst *, 16> inv;
    for (auto &I : instructions(F)) {
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        auto *C = CB->getCalledFunction();
        if (C && C->doesNotThrow()) CB->setDoesNotThrow();
        // calls through Python/C function pointers do not unwind
        if (!C && !CB->isInlineAsm()) CB->setDoesNotThrow();
      }
      if (auto *II = dyn_cast<InvokeInst>(&I)) if (II->doesNotThrow()) inv.push_back(II);
    }
    for (auto *II : inv) changeToCall(II);
    removeUnreachableBlocks(F);
  }
  MAM.clear(); FAM.clear(); CGAM.clear(); LAM.clear();
  {
    ModulePassManager MPM;
    MPM.addPass(createModuleToPostOrderCGSCCPassAdaptor(PostOrderFunctionAttrsPass()));
    MPM.addPass(AlwaysInlinerPass(false));
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(EarlyCSEPass(false));
    FPM.addPass(InstSimplifyPass());
    FPM.addPass(ADCEPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
  }
  for (auto &F : *M) if (!F.isDeclaration()) removeUnreachableBlocks(F);
  for (auto *F : kernels) roots.insert(F);
  }

  std::error_code EC;
  raw_fd_ostream OS(Out, EC);
  Dumper D(*M, OS);
  D.J.objectBegin();
  D.J.attribute("src", M->getSourceFileName());
  D.J.attributeArray("funcs", [&] {
    for (auto *F : [&] { std::vector<Function *> v; for (auto &F : *M) if (roots.count(&F)) v.push_back(&F); return v; }()) D.dumpFn(*F);
  });
  // every callee appearing: demangled name, category, declaration?
  D.J.attributeObject("callees", [&] {
    std::set<const Function *> s;
    for (auto *R : roots) for (auto &I : instructions(*R)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) s.insert(C);
    std::map<std::string, const Function *> o; for (auto *f : s) o[f->getName().str()] = f;
    for (auto &kv : o) {
      auto *f = kv.second;
      static const char *cn[] = {"project", "third", "cpython", "lib", "unknown"};
      D.J.attributeObject(kv.first, [&] {
        D.J.attribute("d", json::fixUTF8(dem(kv.first)));
        D.J.attribute("cat", cn[cat[const_cast<Function *>(f)]]);
        D.J.attribute("decl", f->isDeclaration());
        D.J.attribute("nu", f->doesNotThrow());
        std::set<Function *> st;
        D.J.attribute("py", reach(const_cast<Function *>(f), st));
        if (f->doesNotReturn()) D.J.attribute("noret", true);
        if (f->onlyReadsMemory()) D.J.attribute("ro", true);
      });
    }
  });
  D.J.attributeArray("locs", [&] {
    for (size_t i = 0; i < D.locs.size(); ++i) {
      auto *L = D.locs[i];
      D.J.arrayBegin();
      std::string f = L->getFilename().starts_with("/") ? L->getFilename().str() : (L->getDirectory() + "/" + L->getFilename()).str();
      D.J.value(normPath(f)); D.J.value((int)L->getLine());
      auto *S = L->getScope() ? L->getScope()->getSubprogram() : nullptr;
      D.J.value(S ? S->getName() : "");
      D.J.value(L->getInlinedAt() ? D.locIds[L->getInlinedAt()] : -1);
      D.J.arrayEnd();
    }
  });
  D.J.attributeObject("globals", [&] {
    std::set<std::string> seen;
    for (auto &G : M->globals()) {
      if (!G.hasInitializer() || !G.hasName()) { continue; }
      if (G.getName().starts_with("_ZTS") || G.getName().starts_with("_ZTI") || G.getName().starts_with("_ZTV")) continue;
      D.J.attributeObject(G.getName(), [&] {
        D.J.attribute("ty", D.ty(G.getValueType()));
        D.J.attribute("const", G.isConstant());
        SmallVector<DIGlobalVariableExpression *, 2> ge; G.getDebugInfo(ge);
        if (!ge.empty()) { D.J.attribute("src", ge[0]->getVariable()->getName()); D.J.attribute("line", (int)ge[0]->getVariable()->getLine()); }
        D.J.attribute("init", D.initVal(G.getInitializer()));
      });
    }
  });
  D.dumpStructs();
  D.J.attributeObject("stats", [&] { for (auto &k : stats) D.J.attribute(k.first, k.second); });
  D.J.objectEnd();
  OS << "\n";
  return 0;
}
