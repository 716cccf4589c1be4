// irdump: dump an LLVM module (bitcode / .ll) as JSON for the Python analyses.
// Usage: irdump FILE > out.json
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <cmath>
#include <map>
using namespace llvm;

static std::map<const Value*, int> Ids;
static std::map<const BasicBlock*, int> BBs;
static const DataLayout *DL;

static std::string tystr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }

static json::Value fpval(const APFloat &F) {
  APFloat D = F; bool li; D.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
  double d = D.convertToDouble();
  if (std::isnan(d)) return "nan";
  if (std::isinf(d)) return d > 0 ? "inf" : "-inf";
  char b[64]; snprintf(b, sizeof b, "%.17g", d); return std::string(b);
}

static json::Value opnd(const Value *V) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() == 1) return json::Array{"i", (int)CI->getZExtValue(), 1};   // truth values are 0 and 1
    if (CI->getBitWidth() <= 64) return json::Array{"i", CI->getSExtValue(), (int)CI->getBitWidth()};
    return json::Array{"?", "bigint"};
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) return json::Array{"f", fpval(CF->getValueAPF())};
  if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
  if (isa<PoisonValue>(V)) return json::Array{"poison"};
  if (isa<UndefValue>(V)) return json::Array{"undef"};
  if (auto *F = dyn_cast<Function>(V)) return json::Array{"fn", F->getName().str()};
  if (auto *G = dyn_cast<GlobalVariable>(V)) return json::Array{"g", G->getName().str(), 0};
  if (auto *BB = dyn_cast<BasicBlock>(V)) return json::Array{"bb", BBs[BB]};
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) {
      APInt off(64, 0);
      if (GO->accumulateConstantOffset(*DL, off)) {
        const Value *B = GO->getPointerOperand()->stripPointerCasts();
        if (auto *G = dyn_cast<GlobalVariable>(B)) return json::Array{"g", G->getName().str(), off.getSExtValue()};
        if (auto *GO2 = dyn_cast<GEPOperator>(B)) {
          APInt o2(64,0);
          if (GO2->accumulateConstantOffset(*DL,o2))
            if (auto *G = dyn_cast<GlobalVariable>(GO2->getPointerOperand()->stripPointerCasts()))
              return json::Array{"g", G->getName().str(), off.getSExtValue()+o2.getSExtValue()};
        }
      }
    }
    std::string s; raw_string_ostream o(s); CE->print(o); return json::Array{"ce", o.str()};
  }
  auto it = Ids.find(V);
  if (it != Ids.end()) return json::Array{"v", it->second};
  std::string s; raw_string_ostream o(s); V->printAsOperand(o, false); return json::Array{"?", o.str()};
}

static json::Value loc(const DebugLoc &L) {
  if (!L) return nullptr;
  json::Array chain;
  const DILocation *D = L.get();
  json::Object o;
  o["line"] = (int)D->getLine();
  o["file"] = D->getFilename().str();
  if (auto *SP = D->getScope()->getSubprogram()) o["fn"] = SP->getName().str();
  for (const DILocation *I = D->getInlinedAt(); I; I = I->getInlinedAt()) {
    std::string fn; if (auto *SP = I->getScope()->getSubprogram()) fn = SP->getName().str();
    chain.push_back(json::Array{fn, I->getFilename().str(), (int)I->getLine()});
  }
  if (!chain.empty()) o["at"] = std::move(chain);
  return o;
}

static json::Value constinit(const Constant *C, int depth=0) {
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    if (CDS->isString()) {
      // raw bytes as array of ints to survive JSON
      json::Array a; StringRef s = CDS->getAsString();
      for (unsigned char c : s) a.push_back((int)c);
      return json::Object{{"bytes", std::move(a)}};
    }
    json::Array a;
    for (unsigned i = 0; i < CDS->getNumElements(); i++) a.push_back(constinit(CDS->getElementAsConstant(i), depth+1));
    return json::Object{{"agg", std::move(a)}};
  }
  if (isa<ConstantAggregateZero>(C) ) return json::Object{{"zero", (int64_t)DL->getTypeAllocSize(C->getType())}};
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    json::Array a;
    for (unsigned i = 0; i < CA->getNumOperands(); i++) a.push_back(constinit(CA->getOperand(i), depth+1));
    return json::Object{{"agg", std::move(a)}};
  }
  return opnd(C);
}

static const DIType *strip(const DIType *T) {
  while (T) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) break;
    if (D->getTag()==dwarf::DW_TAG_typedef || D->getTag()==dwarf::DW_TAG_const_type || D->getTag()==dwarf::DW_TAG_volatile_type) T = D->getBaseType();
    else break;
  }
  return T;
}
static json::Value ditype(const DIType *T, int depth=0) {
  T = strip(T);
  if (!T) return "void";
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    if (D->getTag()==dwarf::DW_TAG_pointer_type) {
      const DIType *bt = D->getBaseType();
      bool isconst=false; const DIType *x=bt;
      while (auto *d = dyn_cast_or_null<DIDerivedType>(x)) { if (d->getTag()==dwarf::DW_TAG_const_type) isconst=true; if (d->getTag()==dwarf::DW_TAG_pointer_type) break; x=d->getBaseType(); }
      json::Object o{{"ptr", depth>4? json::Value("...") : ditype(bt, depth+1)}};
      if (isconst) o["const"]=true;
      return o;
    }
    return D->getName().str();
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag()==dwarf::DW_TAG_array_type) {
      json::Array dims;
      for (auto *E : C->getElements()) if (auto *SR = dyn_cast<DISubrange>(E)) {
        if (auto *CI = dyn_cast_if_present<ConstantInt*>(SR->getCount())) dims.push_back(CI->getSExtValue()); else dims.push_back(nullptr);
      }
      return json::Object{{"arr", ditype(C->getBaseType(), depth+1)}, {"dims", std::move(dims)}};
    }
    if (C->getTag()==dwarf::DW_TAG_structure_type || C->getTag()==dwarf::DW_TAG_union_type) {
      json::Object o{{"struct", C->getName().str()}, {"size", (int64_t)C->getSizeInBits()/8}};
      if (depth <= 3) {
        json::Array m;
        for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E))
          m.push_back(json::Object{{"name", D->getName().str()}, {"off", (int64_t)D->getOffsetInBits()/8}, {"size", (int64_t)D->getSizeInBits()/8}, {"type", ditype(D->getBaseType(), depth+1)}});
        o["members"] = std::move(m);
      }
      return o;
    }
    return C->getName().str();
  }
  return "other";
}

#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/FileSystem.h"
#include <set>
#include <sstream>
// irdump --prep KEEP[,KEEP...] IN OUT : mark every defined function outside KEEP (and main) for forced
// inlining, give it local linkage, and drop optnone/noinline everywhere.
static int prep(const char *keep, const char *in, const char *out) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(in, Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  std::set<std::string> K; std::stringstream ss(keep); std::string x; while (std::getline(ss, x, ',')) K.insert(x);
  K.insert("main");
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
    if (!K.count(F.getName().str())) { F.addFnAttr(Attribute::AlwaysInline); F.setLinkage(GlobalValue::InternalLinkage); }
  }
  std::error_code EC; raw_fd_ostream o(out, EC, sys::fs::OF_None);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  WriteBitcodeToFile(*M, o);
  return 0;
}

int main(int argc, char **argv) {
  if (argc == 5 && std::string(argv[1]) == "--prep") return prep(argv[2], argv[3], argv[4]);
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  json::Object root;
  json::Object gl;
  for (auto &G : M->globals()) {
    json::Object o;
    o["type"] = tystr(G.getValueType());
    o["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
    o["const"] = G.isConstant();
    o["decl"] = G.isDeclaration();
    o["local"] = G.hasLocalLinkage();
    if (G.hasInitializer()) o["init"] = constinit(G.getInitializer());
    SmallVector<DIGlobalVariableExpression*,1> gvs; G.getDebugInfo(gvs);
    if (!gvs.empty()) { auto *v = gvs[0]->getVariable(); o["name"] = v->getName().str(); o["line"]=(int)v->getLine(); o["file"]=v->getFilename().str(); o["ditype"] = ditype(v->getType());
      if (auto *SP = dyn_cast_or_null<DISubprogram>(v->getScope())) o["infn"]=SP->getName().str(); }
    gl[G.getName()] = std::move(o);
  }
  root["globals"] = std::move(gl);
  json::Object fns;
  for (auto &F : *M) {
    json::Object fo;
    fo["ret"] = tystr(F.getReturnType());
    fo["vararg"] = F.isVarArg();
    fo["local"] = F.hasLocalLinkage();
    Ids.clear(); BBs.clear();
    int n = 0;
    json::Array args;
    for (auto &A : F.args()) { Ids[&A] = n; args.push_back(json::Object{{"id", n}, {"type", tystr(A.getType())}, {"byval", A.hasByValAttr() ? (int64_t)DL->getTypeAllocSize(A.getParamByValType()) : (int64_t)0}}); n++; }
    fo["args"] = std::move(args);
    if (auto *SP = F.getSubprogram()) { fo["file"] = SP->getFilename().str(); fo["line"] = (int)SP->getLine();
      json::Array ts; if (auto *T = SP->getType()) for (auto *E : T->getTypeArray()) ts.push_back(E ? ditype(E) : json::Value("void"));
      fo["ditypes"] = std::move(ts); }
    if (F.isDeclaration()) { fo["decl"] = true; fns[F.getName()] = std::move(fo); continue; }
    int b = 0;
    for (auto &BB : F) { BBs[&BB] = b++; for (auto &I : BB) Ids[&I] = n++; }
    json::Object names;
    json::Object locals;
    json::Array blocks;
    for (auto &BB : F) {
      json::Array insts;
      for (auto &I : BB) {
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
          for (auto *V : D->location_ops()) { if (!V) continue; auto it = Ids.find(V); if (it != Ids.end()) {
            std::string key = std::to_string(it->second);
            std::string nm = D->getVariable()->getName().str();
            if (auto *a = names.getArray(key)) { bool has=false; for (auto &x : *a) if (x == json::Value(nm)) has=true; if (!has) a->push_back(nm); }
            else names[key] = json::Array{nm};
            if (isa<DbgDeclareInst>(D)) locals[key] = ditype(D->getVariable()->getType());
          } }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        json::Object o;
        o["i"] = Ids[&I];
        o["o"] = I.getOpcodeName();
        o["t"] = tystr(I.getType());
        auto L = loc(I.getDebugLoc()); if (L.kind() != json::Value::Null) o["l"] = std::move(L);
        if (auto *A = dyn_cast<AllocaInst>(&I)) {
          auto sz = A->getAllocationSize(*DL);
          if (sz) o["size"] = (int64_t)sz->getFixedValue();
          else { o["vla"] = opnd(A->getArraySize()); o["esz"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()); }
          o["at"] = tystr(A->getAllocatedType());
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value*, APInt> var; APInt off(64, 0);
          json::Array a; a.push_back(opnd(G->getPointerOperand()));
          o["a"] = std::move(a);
          if (G->collectOffset(*DL, 64, var, off)) {
            o["off"] = off.getSExtValue();
            json::Array vs; for (auto &kv : var) vs.push_back(json::Array{opnd(kv.first), kv.second.getSExtValue()});
            o["var"] = std::move(vs);
          }
          o["st"] = tystr(G->getSourceElementType());
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          json::Array a; for (unsigned k = 0; k < P->getNumIncomingValues(); k++) a.push_back(json::Array{opnd(P->getIncomingValue(k)), BBs[P->getIncomingBlock(k)]});
          o["inc"] = std::move(a);
        } else if (auto *B = dyn_cast<BranchInst>(&I)) {
          json::Array s; for (unsigned k = 0; k < B->getNumSuccessors(); k++) s.push_back(BBs[B->getSuccessor(k)]);
          o["succ"] = std::move(s);
          json::Array a; if (B->isConditional()) a.push_back(opnd(B->getCondition())); o["a"] = std::move(a);
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          o["a"] = json::Array{opnd(S->getCondition())};
          json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), BBs[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs); o["def"] = BBs[S->getDefaultDest()];
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          const Value *cv = C->getCalledOperand()->stripPointerCasts();
          if (auto *CF = dyn_cast<Function>(cv)) o["f"] = CF->getName().str(); else o["fv"] = opnd(cv);
          json::Array a, bv; for (unsigned k = 0; k < C->arg_size(); k++) { a.push_back(opnd(C->getArgOperand(k)));
             bv.push_back(C->isByValArgument(k) ? (int64_t)DL->getTypeAllocSize(C->getParamByValType(k)) : (int64_t)0); }
          o["a"] = std::move(a); o["bv"] = std::move(bv);
        } else {
          json::Array a; for (auto &U : I.operands()) a.push_back(opnd(U.get())); o["a"] = std::move(a);
          if (auto *C = dyn_cast<CmpInst>(&I)) o["p"] = CmpInst::getPredicateName(C->getPredicate()).str();
          if (auto *Ld = dyn_cast<LoadInst>(&I)) o["size"] = (int64_t)DL->getTypeStoreSize(Ld->getType());
          if (auto *St = dyn_cast<StoreInst>(&I)) o["size"] = (int64_t)DL->getTypeStoreSize(St->getValueOperand()->getType());
          if (!I.operands().empty() && isa<CastInst>(&I)) o["ft"] = tystr(I.getOperand(0)->getType());
          if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto k : EV->indices()) ix.push_back((int)k); o["ix"] = std::move(ix); }
          if (auto *EV = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto k : EV->indices()) ix.push_back((int)k); o["ix"] = std::move(ix); }
        }
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    fo["blocks"] = std::move(blocks);
    fo["names"] = std::move(names);
    fo["locals"] = std::move(locals);
    fns[F.getName()] = std::move(fo);
  }
  root["functions"] = std::move(fns);
  // call-argument pretty: nothing
  outs() << json::Value(std::move(root)) << "\n";
  return 0;
}
