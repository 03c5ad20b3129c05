// irdump: prints an LLVM-18 bitcode/IR module as JSON for the VC generator.
// Only a change of notation: every instruction of every function reachable from
// the requested entry points is emitted one to one; GEPs are lowered to base +
// constant + sum(index*scale) with the module's own DataLayout.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallString.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <cstring>
using namespace llvm;
static const DataLayout* DL;
static raw_ostream* O;
static std::set<const GlobalValue*> seen;
static std::vector<const GlobalValue*> work;
static std::map<const Value*, unsigned> ids;

static void need(const GlobalValue* g) { if (seen.insert(g).second) work.push_back(g); }
static std::string esc(StringRef s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; }
    else r += c;
  }
  return r;
}
static void ty(Type* t) {
  raw_ostream& o = *O;
  if (t->isIntegerTy()) o << "\"i" << t->getIntegerBitWidth() << '"';
  else if (t->isDoubleTy()) o << "\"d\"";
  else if (t->isFloatTy()) o << "\"f\"";
  else if (t->isX86_FP80Ty()) o << "\"x\"";
  else if (t->isPointerTy()) o << "\"p\"";
  else if (t->isVoidTy()) o << "\"v\"";
  else if (auto* s = dyn_cast<StructType>(t)) {
    if (s->isOpaque()) { o << "[\"s\",0]"; return; }
    const StructLayout* L = DL->getStructLayout(s);
    o << "[\"s\"," << DL->getTypeAllocSize(t).getFixedValue();
    for (unsigned i = 0; i < s->getNumElements(); ++i) { o << ",[" << L->getElementOffset(i).getFixedValue() << ","; ty(s->getElementType(i)); o << "]"; }
    o << "]";
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    o << "[\"a\"," << DL->getTypeAllocSize(t).getFixedValue() << "," << a->getNumElements() << "," << DL->getTypeAllocSize(a->getElementType()).getFixedValue() << ",";
    ty(a->getElementType()); o << "]";
  } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
    o << "[\"a\"," << DL->getTypeAllocSize(t).getFixedValue() << "," << v->getNumElements() << "," << DL->getTypeAllocSize(v->getElementType()).getFixedValue() << ",";
    ty(v->getElementType()); o << "]";
  } else o << "\"?\"";
}
static void val(const Value* v);
static void cst(const Constant* c) {
  raw_ostream& o = *O;
  if (auto* ci = dyn_cast<ConstantInt>(c)) { SmallString<64> s; ci->getValue().toString(s, 10, true); o << "[\"c\"," << ci->getBitWidth() << "," << s << "]"; return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF();
    if (f.isNaN()) { o << "[\"f\",\"nan\"]"; return; }
    if (f.isInfinity()) { o << "[\"f\",\"" << (f.isNegative() ? "-inf" : "inf") << "\"]"; return; }
    bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    double d = f.convertToDouble(); char b[64]; snprintf(b, 64, "%a", d);
    o << "[\"f\",\"" << b << "\"]"; return;
  }
  if (isa<ConstantPointerNull>(c)) { o << "[\"n\"]"; return; }
  if (isa<UndefValue>(c)) { o << "[\"u\","; ty(c->getType()); o << "]"; return; }
  if (isa<ConstantAggregateZero>(c)) { o << "[\"z\","; ty(c->getType()); o << "]"; return; }
  if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
    if (ca->getElementType()->isIntegerTy(8)) { o << "[\"str\",["; StringRef s = ca->getRawDataValues(); for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << (int)(signed char)s[i]; o << "]]"; return; }
    o << "[\"a\",["; for (unsigned i = 0; i < ca->getNumElements(); ++i) { if (i) o << ","; cst(ca->getElementAsConstant(i)); } o << "]]"; return;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    o << "[\"a\",["; for (unsigned i = 0; i < ca->getNumOperands(); ++i) { if (i) o << ","; cst(cast<Constant>(ca->getOperand(i))); } o << "]]"; return;
  }
  if (c->getType()->isPointerTy()) {
    APInt off(64, 0);
    const Value* b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto* ga = dyn_cast<GlobalAlias>(b)) b = ga->getAliaseeObject();
    if (auto* g = dyn_cast<GlobalValue>(b)) { need(g); o << "[\"g\",\"" << esc(g->getName()) << "\"," << off.getSExtValue() << "]"; return; }
    if (auto* ce = dyn_cast<ConstantExpr>(b)) if (ce->getOpcode() == Instruction::IntToPtr) { o << "[\"i2p\","; cst(ce->getOperand(0)); o << "]"; return; }
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    o << "[\"ce\",\"" << ce->getOpcodeName() << "\","; ty(c->getType()); o << ",[";
    for (unsigned i = 0; i < ce->getNumOperands(); ++i) { if (i) o << ","; cst(ce->getOperand(i)); }
    o << "]]"; return;
  }
  o << "[\"u\",\"?\"]";
}
static void val(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) { cst(c); return; }
  auto it = ids.find(v);
  if (it != ids.end()) { *O << it->second; return; }
  *O << "[\"u\",\"?\"]";   // metadata, inline asm
}
static void fn(const Function& F) {
  raw_ostream& o = *O;
  ids.clear(); unsigned n = 0;
  for (auto& a : F.args()) ids[&a] = n++;
  std::map<const BasicBlock*, unsigned> bb; unsigned nb = 0;
  for (auto& B : F) { bb[&B] = nb++; for (auto& I : B) ids[&I] = n++; }
  o << "{\"name\":\"" << esc(F.getName()) << "\",\"dem\":\"" << esc(demangle(F.getName().str())) << "\",\"nargs\":" << F.arg_size() << ",\"va\":" << (F.isVarArg() ? 1 : 0) << ",\"ret\":"; ty(F.getReturnType());
  o << ",\"args\":[";
  for (auto& a : F.args()) { if (a.getArgNo()) o << ","; ty(a.getType()); }
  o << "],\"byval\":[";
  for (auto& a : F.args()) { if (a.getArgNo()) o << ","; if (a.hasByValAttr()) o << DL->getTypeAllocSize(a.getParamByValType()).getFixedValue(); else o << 0; }
  o << "],\"file\":\"";
  if (auto* sp = F.getSubprogram()) { o << esc(sp->getFilename()) << "\",\"line\":" << sp->getLine(); } else o << "\",\"line\":0";
  { std::set<std::string> in;
    for (auto& B : F) for (auto& I : B) if (auto* l = I.getDebugLoc().get()) if (auto* sp = l->getScope()->getSubprogram())
      in.insert(esc(demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str())) + " @ " + esc(sp->getFilename()) + ":" + std::to_string(sp->getLine()));
    o << ",\"inl\":["; bool ff = true; for (auto& x : in) { if (!ff) o << ","; ff = false; o << '"' << x << '"'; } o << "]"; }
  o << ",\"blocks\":[";
  for (auto& B : F) {
    if (bb[&B]) o << ",\n";
    o << "[";
    bool first = true;
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
        auto id = ii->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) continue;
      }
      if (!first) o << ","; first = false;
      o << "[\"" << I.getOpcodeName() << "\"," << ids[&I] << ","; ty(I.getType());
      unsigned line = 0; if (I.getDebugLoc()) line = I.getDebugLoc().getLine();
      o << "," << line;
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value*, APInt> vo; APInt co(64, 0);
        if (!g->getType()->isVectorTy() && cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) {
          o << ","; val(g->getPointerOperand()); o << "," << co.getSExtValue() << ",[";
          bool ff = true; for (auto& p : vo) { if (!ff) o << ","; ff = false; o << "["; val(p.first); o << "," << p.second.getSExtValue() << "]"; }
          o << "]";
        } else o << ",[\"u\",\"?\"],0,[]";
      } else if (auto* p = dyn_cast<PHINode>(&I)) {
        o << ",["; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) { if (i) o << ","; o << "["; val(p->getIncomingValue(i)); o << "," << bb[p->getIncomingBlock(i)] << "]"; } o << "]";
      } else if (auto* b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) { o << ","; val(b->getCondition()); o << "," << bb[b->getSuccessor(0)] << "," << bb[b->getSuccessor(1)]; } else o << ",null," << bb[b->getSuccessor(0)];
      } else if (auto* s = dyn_cast<SwitchInst>(&I)) {
        o << ","; val(s->getCondition()); o << "," << bb[s->getDefaultDest()] << ",[";
        bool ff = true; for (auto& c : s->cases()) { if (!ff) o << ","; ff = false; SmallString<32> t; c.getCaseValue()->getValue().toString(t, 10, true); o << "[" << t << "," << bb[c.getCaseSuccessor()] << "]"; } o << "]";
      } else if (auto* c = dyn_cast<CallBase>(&I)) {
        const Value* cv = c->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        o << ",";
        if (auto* cf = dyn_cast<Function>(cv)) { need(cf); o << "\"" << esc(cf->getName()) << "\""; } else val(cv);
        o << ",["; for (unsigned i = 0; i < c->arg_size(); ++i) { if (i) o << ","; if (c->getArgOperand(i)->getType()->isMetadataTy()) o << "[\"u\",\"?\"]"; else val(c->getArgOperand(i)); } o << "],[";
        for (unsigned i = 0; i < c->arg_size(); ++i) { if (i) o << ","; if (c->isByValArgument(i)) o << DL->getTypeAllocSize(c->getParamByValType(i)).getFixedValue(); else o << 0; } o << "]";
        if (auto* inv = dyn_cast<InvokeInst>(c)) o << "," << bb[inv->getNormalDest()];
      } else if (auto* a = dyn_cast<AllocaInst>(&I)) {
        o << "," << DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue() << ","; val(a->getArraySize());
      } else if (auto* l = dyn_cast<LoadInst>(&I)) {
        o << ","; val(l->getPointerOperand());
      } else if (auto* s = dyn_cast<StoreInst>(&I)) {
        o << ","; val(s->getValueOperand()); o << ","; val(s->getPointerOperand()); o << ","; ty(s->getValueOperand()->getType());
      } else if (auto* c = dyn_cast<CmpInst>(&I)) {
        o << ",\"" << CmpInst::getPredicateName(c->getPredicate()).str() << "\","; val(c->getOperand(0)); o << ","; val(c->getOperand(1)); o << ","; ty(c->getOperand(0)->getType());
      } else if (auto* e = dyn_cast<ExtractValueInst>(&I)) {
        o << ","; val(e->getAggregateOperand()); o << ",["; for (unsigned i = 0; i < e->getNumIndices(); ++i) o << (i ? "," : "") << e->getIndices()[i]; o << "]";
      } else if (auto* e = dyn_cast<InsertValueInst>(&I)) {
        o << ","; val(e->getAggregateOperand()); o << ","; val(e->getInsertedValueOperand()); o << ",["; for (unsigned i = 0; i < e->getNumIndices(); ++i) o << (i ? "," : "") << e->getIndices()[i]; o << "]";
      } else if (auto* c = dyn_cast<CastInst>(&I)) {
        o << ","; val(c->getOperand(0)); o << ","; ty(c->getOperand(0)->getType());
      } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
        o << ","; val(sv->getOperand(0)); o << ","; val(sv->getOperand(1)); o << ",["; bool ff = true; for (int m : sv->getShuffleMask()) { if (!ff) o << ","; ff = false; o << m; } o << "]";
      } else {
        unsigned fl = 0;
        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) fl |= 1; if (ob->hasNoUnsignedWrap()) fl |= 2; }
        if (isa<BinaryOperator>(I)) o << "," << fl;
        for (auto& u : I.operands()) { if (isa<BasicBlock>(u)) { o << "," << bb[cast<BasicBlock>(u)]; } else { o << ","; val(u); } }
      }
      o << "]";
    }
    o << "]";
  }
  o << "]}";
}
int main(int argc, char** argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout(); O = &outs();
  std::string pre = argc > 2 ? argv[2] : "ob_";
  std::vector<const Function*> fs; std::vector<const GlobalVariable*> gs; std::vector<const Function*> ctors;
  std::vector<std::string> entries;
  for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with(pre)) { need(&F); entries.push_back(F.getName().str()); }
  outs() << "{\"functions\":{";
  std::string gbuf; bool ff = true;
  std::vector<std::string> ctorNames;
  if (auto* g = M->getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
    for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) { need(f); ctorNames.push_back(f->getName().str()); } }
  std::vector<const GlobalVariable*> gl;
  for (size_t i = 0; i < work.size(); ++i) {
    if (auto* F = dyn_cast<Function>(work[i])) {
      if (F->isDeclaration()) continue;
      if (!ff) outs() << ",\n"; ff = false;
      outs() << "\"" << esc(F->getName()) << "\":"; fn(*F);
    } else if (auto* G = dyn_cast<GlobalVariable>(work[i])) {
      raw_string_ostream so(gbuf); raw_ostream* save = O; O = &so;
      if (!gbuf.empty()) so << ",\n";
      so << "\"" << esc(G->getName()) << "\":[" << DL->getTypeAllocSize(G->getValueType()).getFixedValue() << "," << (G->isConstant() ? 1 : 0) << ","; ty(G->getValueType()); so << ",";
      if (G->hasInitializer()) cst(G->getInitializer()); else so << "null";
      so << "]"; so.flush(); O = save;
    }
  }
  outs() << "},\"globals\":{" << gbuf << "},\"ctors\":[";
  for (size_t i = 0; i < ctorNames.size(); ++i) outs() << (i ? "," : "") << "\"" << esc(ctorNames[i]) << "\"";
  outs() << "],\"entries\":[";
  for (size_t i = 0; i < entries.size(); ++i) outs() << (i ? "," : "") << "\"" << esc(entries[i]) << "\"";
  outs() << "]}\n";
}
