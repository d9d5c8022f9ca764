// Dumps an LLVM module (after SSA construction) as JSON for the VC generator.
// Only functions reachable from the given roots are written.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <deque>
#include <string>
#include <iostream>
using namespace llvm;

static const DataLayout* DL;
static raw_ostream* OS;
static std::set<std::string> wantF, wantG;
static std::deque<const Function*> fq;
static std::deque<const GlobalVariable*> gq;

static void str(StringRef s) {
  *OS << '"';
  for (char c : s) {
    unsigned char u = (unsigned char)c;
    if (c == '"' || c == '\\') { *OS << '\\' << c; }
    else if (u < 32 || u > 126) { char b[8]; snprintf(b, 8, "\\u%04x", u); *OS << b; }
    else *OS << c;
  }
  *OS << '"';
}
static void needF(const Function* f) { if (wantF.insert(f->getName().str()).second) fq.push_back(f); }
static void needG(const GlobalVariable* g) { if (wantG.insert(g->getName().str()).second) gq.push_back(g); }

static void type(Type* t) {
  if (t->isVoidTy()) *OS << "\"v\"";
  else if (t->isIntegerTy()) *OS << "\"i" << t->getIntegerBitWidth() << "\"";
  else if (t->isDoubleTy()) *OS << "\"d\"";
  else if (t->isFloatTy()) *OS << "\"f\"";
  else if (t->isX86_FP80Ty()) *OS << "\"x\"";
  else if (t->isPointerTy()) *OS << "\"p\"";
  else if (auto* s = dyn_cast<StructType>(t)) {
    if (s->isOpaque()) { *OS << "\"opaque\""; return; }
    auto* l = DL->getStructLayout(s);
    *OS << "[\"s\"," << DL->getTypeAllocSize(s) << ",[";
    for (unsigned i = 0; i < s->getNumElements(); i++) {
      if (i) *OS << ',';
      *OS << '[' << l->getElementOffset(i).getFixedValue() << ','; type(s->getElementType(i)); *OS << ']';
    }
    *OS << "]]";
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    *OS << "[\"a\"," << DL->getTypeAllocSize(a) << ',' << a->getNumElements() << ',';
    type(a->getElementType()); *OS << ',' << DL->getTypeAllocSize(a->getElementType()) << ']';
  } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
    *OS << "[\"a\"," << DL->getTypeAllocSize(v) << ',' << v->getNumElements() << ',';
    type(v->getElementType()); *OS << ',' << DL->getTypeAllocSize(v->getElementType()) << ']';
  } else *OS << "\"?\"";
}

static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bids;

static void constant(const Constant* c);
static void operand(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) { constant(c); return; }
  auto it = ids.find(v);
  if (it != ids.end()) { *OS << it->second; return; }
  *OS << "[\"?\"]";
}
static void constant(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    SmallString<32> s;
    if (ci->getBitWidth() == 1) s = ci->isZero() ? "0" : "1";
    else ci->getValue().toString(s, 10, true);
    *OS << "[\"i\",\"" << s << "\"," << ci->getBitWidth() << "]"; return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF(); bool li;
    if (&f.getSemantics() != &APFloat::IEEEdouble()) f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    char b[64]; double d = f.convertToDouble();
    snprintf(b, 64, "%a", d);
    *OS << "[\"f\",\"" << b << "\"]"; return;
  }
  if (isa<ConstantPointerNull>(c)) { *OS << "[\"null\"]"; return; }
  if (isa<UndefValue>(c)) { *OS << "[\"undef\","; type(c->getType()); *OS << "]"; return; }
  if (isa<ConstantAggregateZero>(c)) { *OS << "[\"zero\","; type(c->getType()); *OS << "]"; return; }
  if (auto* f = dyn_cast<Function>(c)) { needF(f); *OS << "[\"fn\","; str(f->getName()); *OS << "]"; return; }
  if (auto* a = dyn_cast<GlobalAlias>(c)) { constant(a->getAliasee()); return; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) { needG(g); *OS << "[\"g\","; str(g->getName()); *OS << ",0]"; return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) {
        *OS << "[\"off\","; operand(gep->getPointerOperand()); *OS << "," << off.getSExtValue() << "]"; return;
      }
    }
    unsigned op = ce->getOpcode();
    if (op == Instruction::PtrToInt || op == Instruction::IntToPtr || op == Instruction::BitCast || op == Instruction::Trunc || op == Instruction::AddrSpaceCast) { operand(ce->getOperand(0)); return; }
    if (op == Instruction::Sub || op == Instruction::Add) {
      *OS << "[\"ce\",\"" << ce->getOpcodeName() << "\","; operand(ce->getOperand(0)); *OS << ","; operand(ce->getOperand(1)); *OS << "]"; return;
    }
  }
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    *OS << "[\"agg\","; type(c->getType()); *OS << ",[";
    for (unsigned i = 0; i < cds->getNumElements(); i++) { if (i) *OS << ','; constant(cds->getElementAsConstant(i)); }
    *OS << "]]"; return;
  }
  if (isa<ConstantAggregate>(c)) {
    *OS << "[\"agg\","; type(c->getType()); *OS << ",[";
    for (unsigned i = 0; i < c->getNumOperands(); i++) { if (i) *OS << ','; constant(cast<Constant>(c->getOperand(i))); }
    *OS << "]]"; return;
  }
  *OS << "[\"?c\"]";
}

static void callLike(const CallBase* cb) {
  operand(cb->getCalledOperand()); *OS << ",[";
  for (unsigned i = 0; i < cb->arg_size(); i++) {
    if (i) *OS << ',';
    if (cb->getArgOperand(i)->getType()->isMetadataTy()) { *OS << "[\"null\"]"; continue; }
    operand(cb->getArgOperand(i));
  }
  *OS << "],"; type(cb->getType());
  // byval sizes
  *OS << ",[";
  bool first = true;
  for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) {
    if (!first) *OS << ','; first = false;
    *OS << '[' << i << ',' << DL->getTypeAllocSize(cb->getParamByValType(i)) << ']';
  }
  *OS << ']';
}

static void instr(const Instruction* I) {
  int d = ids.count(I) ? ids[I] : -1;
  *OS << '[';
  if (auto* a = dyn_cast<AllocaInst>(I)) {
    *OS << "\"alloca\"," << d << ',' << DL->getTypeAllocSize(a->getAllocatedType()) << ','; operand(a->getArraySize());
  } else if (auto* l = dyn_cast<LoadInst>(I)) {
    *OS << "\"load\"," << d << ','; operand(l->getPointerOperand()); *OS << ','; type(l->getType()); *OS << ',' << DL->getTypeStoreSize(l->getType());
  } else if (auto* s = dyn_cast<StoreInst>(I)) {
    *OS << "\"store\"," << -1 << ','; operand(s->getValueOperand()); *OS << ','; operand(s->getPointerOperand()); *OS << ','; type(s->getValueOperand()->getType()); *OS << ',' << DL->getTypeStoreSize(s->getValueOperand()->getType());
  } else if (auto* g = dyn_cast<GetElementPtrInst>(I)) {
    *OS << "\"gep\"," << d << ','; operand(g->getPointerOperand());
    MapVector<Value*, APInt> vo; APInt co(64, 0);
    auto* go = cast<GEPOperator>(g);
    go->collectOffset(*DL, 64, vo, co);
    *OS << ',' << co.getSExtValue() << ",[";
    bool f = true;
    for (auto& kv : vo) { if (!f) *OS << ','; f = false; *OS << '['; operand(kv.first); *OS << ',' << kv.second.getSExtValue() << ']'; }
    *OS << ']';
  } else if (auto* c = dyn_cast<CmpInst>(I)) {
    *OS << "\"" << I->getOpcodeName() << "\"," << d << ",\"" << CmpInst::getPredicateName(c->getPredicate()) << "\",";
    operand(I->getOperand(0)); *OS << ','; operand(I->getOperand(1)); *OS << ','; type(I->getOperand(0)->getType());
  } else if (auto* c = dyn_cast<CastInst>(I)) {
    *OS << "\"" << I->getOpcodeName() << "\"," << d << ','; operand(I->getOperand(0)); *OS << ','; type(c->getSrcTy()); *OS << ','; type(c->getDestTy());
  } else if (isa<SelectInst>(I)) {
    *OS << "\"select\"," << d << ','; operand(I->getOperand(0)); *OS << ','; operand(I->getOperand(1)); *OS << ','; operand(I->getOperand(2));
  } else if (auto* ev = dyn_cast<ExtractValueInst>(I)) {
    *OS << "\"extractvalue\"," << d << ','; operand(I->getOperand(0)); *OS << ",[";
    bool f = true; for (unsigned i : ev->getIndices()) { if (!f) *OS << ','; f = false; *OS << i; } *OS << ']';
  } else if (auto* iv = dyn_cast<InsertValueInst>(I)) {
    *OS << "\"insertvalue\"," << d << ','; operand(I->getOperand(0)); *OS << ','; operand(I->getOperand(1)); *OS << ",[";
    bool f = true; for (unsigned i : iv->getIndices()) { if (!f) *OS << ','; f = false; *OS << i; } *OS << "],"; type(I->getType());
  } else if (isa<ExtractElementInst>(I)) {
    *OS << "\"extractelement\"," << d << ','; operand(I->getOperand(0)); *OS << ','; operand(I->getOperand(1));
  } else if (isa<InsertElementInst>(I)) {
    *OS << "\"insertelement\"," << d << ','; operand(I->getOperand(0)); *OS << ','; operand(I->getOperand(1)); *OS << ','; operand(I->getOperand(2)); *OS << ','; type(I->getType());
  } else if (auto* sv = dyn_cast<ShuffleVectorInst>(I)) {
    *OS << "\"shufflevector\"," << d << ','; operand(I->getOperand(0)); *OS << ','; operand(I->getOperand(1)); *OS << ",[";
    bool f = true; for (int i : sv->getShuffleMask()) { if (!f) *OS << ','; f = false; *OS << i; } *OS << "]";
  } else if (I->isBinaryOp() || isa<UnaryOperator>(I)) {
    *OS << "\"bin\"," << d << ",\"" << I->getOpcodeName() << "\","; operand(I->getOperand(0)); *OS << ',';
    if (I->getNumOperands() > 1) operand(I->getOperand(1)); else *OS << "null";
    *OS << ','; type(I->getType());
  } else if (isa<FreezeInst>(I)) {
    *OS << "\"freeze\"," << d << ','; operand(I->getOperand(0));
  } else if (auto* iv = dyn_cast<InvokeInst>(I)) {
    *OS << "\"invoke\"," << d << ','; callLike(iv); *OS << ',' << bids[iv->getNormalDest()] << ',' << bids[iv->getUnwindDest()];
  } else if (auto* cb = dyn_cast<CallInst>(I)) {
    *OS << "\"call\"," << d << ','; callLike(cb);
  } else if (auto* r = dyn_cast<ReturnInst>(I)) {
    *OS << "\"ret\"," << -1 << ','; if (r->getReturnValue()) operand(r->getReturnValue()); else *OS << "null";
  } else if (auto* b = dyn_cast<BranchInst>(I)) {
    if (b->isConditional()) { *OS << "\"br\"," << -1 << ','; operand(b->getCondition()); *OS << ',' << bids[b->getSuccessor(0)] << ',' << bids[b->getSuccessor(1)]; }
    else *OS << "\"jmp\"," << -1 << ',' << bids[b->getSuccessor(0)];
  } else if (auto* s = dyn_cast<SwitchInst>(I)) {
    *OS << "\"switch\"," << -1 << ','; operand(s->getCondition()); *OS << ',' << bids[s->getDefaultDest()] << ",[";
    bool f = true; for (auto& cs : s->cases()) { if (!f) *OS << ','; f = false; SmallString<32> v; cs.getCaseValue()->getValue().toString(v, 10, true); *OS << "[" << v << ',' << bids[cs.getCaseSuccessor()] << ']'; }
    *OS << ']';
  } else if (auto* lp = dyn_cast<LandingPadInst>(I)) {
    *OS << "\"landingpad\"," << d << ',' << (lp->isCleanup() ? 1 : 0) << ",[";
    for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (i) *OS << ','; *OS << '[' << (lp->isCatch(i) ? 1 : 0) << ','; operand(lp->getClause(i)); *OS << ']'; }
    *OS << ']';
  } else if (isa<ResumeInst>(I)) {
    *OS << "\"resume\"," << -1 << ','; operand(I->getOperand(0));
  } else if (isa<UnreachableInst>(I)) {
    *OS << "\"unreachable\",-1";
  } else if (auto* rmw = dyn_cast<AtomicRMWInst>(I)) {
    *OS << "\"atomicrmw\"," << d << ",\"" << AtomicRMWInst::getOperationName(rmw->getOperation()) << "\","; operand(I->getOperand(0)); *OS << ','; operand(I->getOperand(1)); *OS << ','; type(I->getType()); *OS << ',' << DL->getTypeStoreSize(I->getType());
  } else if (isa<FenceInst>(I)) {
    *OS << "\"nop\",-1";
  } else {
    *OS << "\"unsupported\"," << d << ",\"" << I->getOpcodeName() << "\"";
  }
  *OS << ']';
}

int main(int argc, char** argv) {
  // irdump out.json roots-prefix a.bc [b.bc ...]
  LLVMContext ctx; SMDiagnostic err;
  std::error_code ec; raw_fd_ostream out(argv[1], ec); OS = &out;
  std::string prefix = argv[2];
  std::unique_ptr<Module> M;
  for (int i = 3; i < argc; i++) {
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print("irdump", errs()); return 2; }
    if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) return 2;
  }
  DL = &M->getDataLayout();
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    // keep calls of library functions as calls: sqrt(2.0) must not become a rounded literal
    TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple())); TLII.disableAllFunctions();
    FAM.registerPass([&] { return TargetLibraryAnalysis(TLII); });
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "function(sroa,early-cse,simplifycfg,sroa,mergereturn,loop-simplify,lcssa)")) { errs() << "pipeline\n"; return 2; }
    MPM.run(*M, MAM);
  }
  out << "{\"functions\":{";
  std::set<std::string> done; bool firstF = true;
  for (auto& f : *M) if (!f.isDeclaration() && f.getName().starts_with(prefix)) needF(&f);
  // global constructors
  std::vector<std::pair<int,const Function*>> ctors;
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* fn = dyn_cast<Function>(cs->getOperand(1))) { ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), fn}); needF(fn);} }
  std::string gbuf; raw_string_ostream gos(gbuf); bool firstG = true;
  while (!fq.empty() || !gq.empty()) {
    if (!fq.empty()) {
      const Function* F = fq.front(); fq.pop_front();
      if (!firstF) out << ",\n"; firstF = false;
      str(F->getName()); out << ":{\"dem\":"; str(demangle(F->getName().str()));
      out << ",\"ret\":"; type(F->getReturnType());
      out << ",\"va\":" << (F->isVarArg() ? 1 : 0);
      if (F->isDeclaration()) { out << ",\"decl\":1}"; continue; }
      ids.clear(); bids.clear(); int n = 0, b = 0;
      for (auto& a : F->args()) ids[&a] = n++;
      out << ",\"nargs\":" << n;
      for (auto& BB : *F) { bids[&BB] = b++; for (auto& I : BB) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
      out << ",\"nvals\":" << n;
      DominatorTree DT(*const_cast<Function*>(F)); LoopInfo LI(DT);
      out << ",\"loops\":[";
      bool fl = true;
      for (auto* L : LI.getLoopsInPreorder()) {
        if (!fl) out << ','; fl = false;
        out << "{\"h\":" << bids[L->getHeader()] << ",\"b\":[";
        bool f2 = true; for (auto* x : L->blocks()) { if (!f2) out << ','; f2 = false; out << bids[x]; }
        out << "]}";
      }
      out << "],\"blocks\":[";
      bool fb = true;
      for (auto& BB : *F) {
        if (!fb) out << ",\n"; fb = false;
        out << "{\"phis\":[";
        bool fp = true;
        for (auto& P : BB.phis()) {
          if (!fp) out << ','; fp = false;
          out << '[' << ids[&P] << ','; type(P.getType()); out << ",[";
          for (unsigned i = 0; i < P.getNumIncomingValues(); i++) { if (i) out << ','; out << '[' << bids[P.getIncomingBlock(i)] << ','; operand(P.getIncomingValue(i)); out << ']'; }
          out << "]]";
        }
        out << "],\"ins\":[";
        bool fi = true;
        for (auto& I : BB) { if (isa<PHINode>(I)) continue; if (isa<DbgInfoIntrinsic>(I)) continue; if (!fi) out << ','; fi = false; instr(&I); }
        out << "]}";
      }
      out << "]}";
    } else {
      const GlobalVariable* G = gq.front(); gq.pop_front();
      raw_ostream* save = OS; OS = &gos;
      if (!firstG) gos << ",\n"; firstG = false;
      str(G->getName());
      gos << ":{\"size\":" << (G->getValueType()->isSized() ? (long long)DL->getTypeAllocSize(G->getValueType()) : 0LL);
      gos << ",\"const\":" << (G->isConstant() ? 1 : 0);
      if (G->hasInitializer()) { gos << ",\"type\":"; type(G->getValueType()); gos << ",\"init\":"; constant(G->getInitializer()); }
      gos << "}";
      OS = save;
    }
  }
  out << "},\"globals\":{" << gos.str() << "},\"ctors\":[";
  for (size_t i = 0; i < ctors.size(); i++) { if (i) out << ','; str(ctors[i].second->getName()); }
  out << "],\"roots\":[";
  bool fr = true;
  for (auto& f : *M) if (!f.isDeclaration() && f.getName().starts_with(prefix)) { if (!fr) out << ','; fr = false; str(f.getName()); }
  out << "]}\n";
  return 0;
}
