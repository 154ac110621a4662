// Module loading, global layout and decoding of functions.
#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

Module* M; const DataLayout* DL;
std::vector<DFunc*> g_funcs;
std::unordered_map<uint64_t, DFunc*> g_funcByAddr;
std::unordered_map<std::string, DFunc*> g_funcByName;
std::unordered_map<const GlobalVariable*, uint64_t> g_gvAddr;
std::unordered_map<uint32_t, const GlobalVariable*> g_gvById;
std::unordered_map<const GlobalVariable*, uint32_t> g_tlsGv;
static std::unordered_map<const Function*, DFunc*> g_funcMap;
Obj FREED_HEAP, FREED_STACK;

static uint16_t typeW(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
unsigned countLeaves(Type* t, std::vector<Leaf>* out, uint32_t off) {
  if (t->isVoidTy() || t->isTokenTy() || t->isLabelTy() || t->isMetadataTy()) return 0;
  if (auto* st = dyn_cast<StructType>(t)) {
    unsigned n = 0; auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) n += countLeaves(st->getElementType(i), out, off + sl->getElementOffset(i));
    return n;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    unsigned n = 0; uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) n += countLeaves(at->getElementType(), out, off + i * es);
    return n;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    unsigned n = 0; uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (uint64_t i = 0; i < vt->getNumElements(); i++) n += countLeaves(vt->getElementType(), out, off + i * es);
    return n;
  }
  if (out) out->push_back(Leaf{typeW(t), off});
  return 1;
}
uint64_t constAddr(const Constant* c) { u128 v; if (constScalar(c, v)) return (uint64_t)v; return 0; }
bool constScalar(const Constant* c, u128& out) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { const APInt& a = ci->getValue(); out = a.getRawData()[0]; if (a.getBitWidth() > 64) out |= (u128)a.getRawData()[1] << 64; return a.getBitWidth() <= 128; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { out = cf->getValueAPF().bitcastToAPInt().getRawData()[0]; return true; }
  if (isa<ConstantPointerNull>(c)) { out = 0; return true; }
  if (isa<UndefValue>(c)) { out = 0; return true; }
  if (auto* f = dyn_cast<Function>(c)) { auto it = g_funcMap.find(f); out = it == g_funcMap.end() ? 0 : it->second->addr; return true; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) { out = g_gvAddr[g]; return true; }
  if (auto* al = dyn_cast<GlobalAlias>(c)) return constScalar(al->getAliasee(), out);
  if (isa<ConstantAggregateZero>(c)) { out = 0; return true; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    u128 a = 0, b = 0;
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        if (!constScalar(ce->getOperand(0), a)) return false;
        APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return false;
        out = (uint64_t)((uint64_t)a + off.getSExtValue()); return true; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt:
        if (!constScalar(ce->getOperand(0), a)) return false; out = a & maskw(typeW(ce->getType())); return true;
      case Instruction::SExt: if (!constScalar(ce->getOperand(0), a)) return false; out = (u128)sext128(a, typeW(ce->getOperand(0)->getType())) & maskw(typeW(ce->getType())); return true;
      default: break;
    }
    if (Instruction::isBinaryOp(ce->getOpcode()) && constScalar(ce->getOperand(0), a) && constScalar(ce->getOperand(1), b)) {
      unsigned w = typeW(ce->getType()); bool ok; Op o;
      switch (ce->getOpcode()) { case Instruction::Add: o = Op::Add; break; case Instruction::Sub: o = Op::Sub; break; case Instruction::Mul: o = Op::Mul; break; case Instruction::And: o = Op::And; break; case Instruction::Or: o = Op::Or; break; case Instruction::Xor: o = Op::Xor; break; case Instruction::Shl: o = Op::Shl; break; case Instruction::LShr: o = Op::LShr; break; case Instruction::AShr: o = Op::AShr; break; case Instruction::SDiv: o = Op::SDiv; break; default: return false; }
      out = foldBin(o, a, b, w, &ok); return ok;
    }
    if (ce->isCompare() && constScalar(ce->getOperand(0), a) && constScalar(ce->getOperand(1), b)) {
      if (ce->getPredicate() == CmpInst::ICMP_EQ) { out = a == b; return true; }
      if (ce->getPredicate() == CmpInst::ICMP_NE) { out = a != b; return true; }
    }
  }
  return false;
}
static void writeInit(const Constant* c, Type* t, std::vector<uint8_t>& d, uint64_t off) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cda = dyn_cast<ConstantDataSequential>(c)) {
    unsigned es = cda->getElementByteSize(); StringRef raw = cda->getRawDataValues();
    memcpy(&d[off], raw.data(), raw.size()); (void)es; return;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) writeInit(c->getAggregateElement(i), st->getElementType(i), d, off + sl->getElementOffset(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) writeInit(c->getAggregateElement(i), at->getElementType(), d, off + i * es);
    return;
  }
  u128 v; 
  if (!constScalar(c, v)) { std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "lsx: unsupported constant initialiser %s\n", s.c_str()); return; }
  unsigned n = (DL->getTypeStoreSize(t));
  memcpy(&d[off], &v, n > 16 ? 16 : n);
}

void loadModule(const std::string& path, State& st) {
  static LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(path, err, ctx);
  if (!m) { err.print("lsx", errs()); exit(3); }
  M = m.release(); DL = &M->getDataLayout();
  uint32_t id = 256;
  auto newObj = [&](uint64_t size, uint8_t kind) { Obj* o = new Obj; o->id = id++; o->size = size; o->kind = kind; return o; };
  for (auto& f : *M) {
    DFunc* d = new DFunc; d->f = &f; d->name = f.getName().str(); d->isDecl = f.isDeclaration();
    d->addr = baseOf(id); Obj* o = newObj(1, K_FUNC); o->data.resize(1); o->ro = true; st.mem.set(o->id, o);
    g_funcs.push_back(d); g_funcByAddr[d->addr] = d; g_funcByName[d->name] = d; g_funcMap[&f] = d;
    d->builtin = builtinId(d->name);
    if (auto* sp = f.getSubprogram()) { std::string fn = sp->getFile() ? (sp->getFilename().startswith("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str()) : ""; d->inRepo = fn.find("/src/lightspeed/") != std::string::npos; }
  }
  for (auto& g : M->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 8;
    bool ext = g.isDeclaration(); if (ext && sz < 256) sz = 256;
    Obj* o = newObj(sz, ext ? K_EXT : K_GLOBAL); o->data.assign(sz, 0); 
    g_gvAddr[&g] = baseOf(o->id); g_gvById[o->id] = &g; o->site = &g; o->shared = !g.isConstant();
    st.mem.set(o->id, o);
    if (g.isThreadLocal()) g_tlsGv[&g] = o->id;
  }
  for (auto& g : M->globals()) if (g.hasInitializer()) {
    Obj* o = st.mem.get((uint32_t)(g_gvAddr[&g] >> 24));
    writeInit(g.getInitializer(), g.getValueType(), o->data, 0);
    o->ro = g.isConstant();
  } else if (g.getName().startswith("_ZTI")) {     // type of the runtime library: it has its own name
    Obj* o = st.mem.get((uint32_t)(g_gvAddr[&g] >> 24)); std::string n = g.getName().str().substr(4); if (n.size() > 180) continue;
    *(uint64_t*)&o->data[8] = baseOf(o->id) + 64; memcpy(&o->data[64], n.c_str(), n.size() + 1);
  }
  st.nextId = id;
}

static Op binOp(unsigned o) {
  switch (o) { case Instruction::Add: return Op::Add; case Instruction::Sub: return Op::Sub; case Instruction::Mul: return Op::Mul; case Instruction::UDiv: return Op::UDiv; case Instruction::SDiv: return Op::SDiv; case Instruction::URem: return Op::URem; case Instruction::SRem: return Op::SRem;
    case Instruction::And: return Op::And; case Instruction::Or: return Op::Or; case Instruction::Xor: return Op::Xor; case Instruction::Shl: return Op::Shl; case Instruction::LShr: return Op::LShr; case Instruction::AShr: return Op::AShr; default: return Op::Const; }
}

struct Decoder {
  DFunc& D; std::unordered_map<const Value*, int> slot; std::unordered_map<const Value*, int> cpool; std::unordered_map<const BasicBlock*, int> bbStart;
  Decoder(DFunc& d) : D(d) {}
  int constOp(const Constant* c) {
    auto it = cpool.find(c); if (it != cpool.end()) return it->second;
    int base = D.pool.size();
    addConst(c, c->getType());
    return cpool[c] = ~base;
  }
  void addConst(const Constant* c, Type* t) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++) { Constant* e = c->getAggregateElement(i); addConst(e, e->getType()); }
      return;
    }
    u128 v = 0; 
    if (!constScalar(c, v)) { std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "lsx: unsupported constant %s\n", s.c_str()); }
    unsigned w = typeW(t);
    if (w > 64) D.pool.push_back(V{mkConst(v, w), 0}); else D.pool.push_back(vc((uint64_t)v & mask64(w ? w : 64)));
  }
  int opnd(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constOp(c);
    auto it = slot.find(v); if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return 0; fprintf(stderr, "lsx: no slot\n"); return 0; }
    return it->second;
  }
  int edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = bbStart[to];
    for (auto& p : to->phis()) {
      const Value* v = p.getIncomingValueForBlock(from); int n = countLeaves(p.getType()); 
      if (isa<UndefValue>(v) && false) continue;
      int d = slot[&p], s = opnd(v);
      for (int i = 0; i < n; i++) e.copies.push_back({d + i, s >= 0 ? s + i : s - i});
    }
    D.edges.push_back(e); return D.edges.size() - 1;
  }
  unsigned aggIndex(Type* t, ArrayRef<unsigned> idx) {
    unsigned o = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += countLeaves(st->getElementType(k)); t = st->getElementType(i); }
      else { auto* at = cast<ArrayType>(t); o += i * countLeaves(at->getElementType()); t = at->getElementType(); }
    }
    return o;
  }
  void run() {
    const Function& F = *D.f;
    for (auto& a : F.args()) { int n = countLeaves(a.getType()); slot[&a] = D.nregs; D.argBase.push_back(D.nregs); D.argN.push_back(n); D.nregs += n; }
    int ni = 0;
    for (auto& bb : F) {
      bbStart[&bb] = ni;
      for (auto& I : bb) {
        int n = countLeaves(I.getType()); if (n) { slot[&I] = D.nregs; D.nregs += n; }
        if (!isa<PHINode>(I)) ni++;
      }
    }
    D.retN = countLeaves(F.getReturnType());
    for (auto& bb : F) for (auto& I : bb) if (!isa<PHINode>(I)) { D.insts.emplace_back(); one(I, D.insts.back()); D.insts.back().gid = D.gidBase + D.insts.size() - 1; }
  }
  void one(const Instruction& I, DInst& d) {
    d.src = &I; d.n = countLeaves(I.getType()); d.dst = d.n ? slot[&I] : -1; d.w = typeW(I.getType());
    d.op = D_UNSUPPORTED;
    if (I.getType()->isX86_FP80Ty() || I.getType()->isFP128Ty()) return;
    bool vec = I.getType()->isVectorTy(); for (auto& o : I.operands()) { if (o->getType()->isVectorTy()) vec = true; if (o->getType()->isX86_FP80Ty()) return; }
    if (vec && !isa<LoadInst>(I) && !isa<StoreInst>(I) && !isa<CallBase>(I) && !isa<ReturnInst>(I) && !isa<SelectInst>(I)) return;
    if (auto* b = dyn_cast<BinaryOperator>(&I)) {
      d.a = opnd(b->getOperand(0)); d.b = opnd(b->getOperand(1));
      if (I.getType()->isFloatingPointTy()) {
        d.op = D_FBIN;
        switch (b->getOpcode()) { case Instruction::FAdd: d.sub = (int)Op::FAdd; break; case Instruction::FSub: d.sub = (int)Op::FSub; break; case Instruction::FMul: d.sub = (int)Op::FMul; break; case Instruction::FDiv: d.sub = (int)Op::FDiv; break; default: d.op = D_UNSUPPORTED; }
      } else { d.op = D_BIN; d.sub = (int)binOp(b->getOpcode()); }
      return;
    }
    if (auto* c = dyn_cast<CmpInst>(&I)) {
      d.a = opnd(c->getOperand(0)); d.b = opnd(c->getOperand(1)); d.w2 = typeW(c->getOperand(0)->getType()); d.sub = c->getPredicate();
      d.op = isa<ICmpInst>(I) ? D_CMP : D_FCMP; return;
    }
    if (auto* c = dyn_cast<CastInst>(&I)) { d.op = D_CAST; d.a = opnd(c->getOperand(0)); d.w2 = typeW(c->getOperand(0)->getType()); d.sub = c->getOpcode(); return; }
    switch (I.getOpcode()) {
      case Instruction::FNeg: d.op = D_FNEG; d.a = opnd(I.getOperand(0)); return;
      case Instruction::Freeze: d.op = D_COPY; d.a = opnd(I.getOperand(0)); return;
      case Instruction::Load: d.op = D_LOAD; d.sub = I.getType()->isPointerTy(); d.a = opnd(I.getOperand(0)); countLeaves(I.getType(), &d.leaves); return;
      case Instruction::Store: d.op = D_STORE; d.sub = cast<StoreInst>(I).getValueOperand()->getType()->isPointerTy(); d.a = opnd(cast<StoreInst>(I).getPointerOperand()); d.b = opnd(cast<StoreInst>(I).getValueOperand()); countLeaves(cast<StoreInst>(I).getValueOperand()->getType(), &d.leaves); return;
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(&I); 
        unsigned bw = 64; MapVector<Value*, APInt> vo; APInt co(64, 0);
        if (!g->collectOffset(*DL, bw, vo, co)) return;
        d.op = D_GEP; d.a = opnd(g->getPointerOperand()); d.imm = co.getSExtValue();
        for (auto& p : vo) d.terms.push_back({opnd(p.first), p.second.getSExtValue(), typeW(p.first->getType())});
        return; }
      case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); d.op = D_ALLOCA; d.imm = DL->getTypeAllocSize(A.getAllocatedType()); d.a = opnd(A.getArraySize()); d.w2 = typeW(A.getArraySize()->getType()); return; }
      case Instruction::Br: {
        auto& B = cast<BranchInst>(I);
        if (B.isUnconditional()) { d.op = D_BR; d.edges = {edge(I.getParent(), B.getSuccessor(0))}; }
        else { d.op = D_CONDBR; d.a = opnd(B.getCondition()); d.edges = {edge(I.getParent(), B.getSuccessor(0)), edge(I.getParent(), B.getSuccessor(1))}; }
        return; }
      case Instruction::Switch: {
        auto& S = cast<SwitchInst>(I); d.op = D_SWITCH; d.a = opnd(S.getCondition()); d.w2 = typeW(S.getCondition()->getType());
        for (auto& c : S.cases()) { u128 v; constScalar(c.getCaseValue(), v); d.cases.push_back(v); d.edges.push_back(edge(I.getParent(), c.getCaseSuccessor())); }
        d.edges.push_back(edge(I.getParent(), S.getDefaultDest())); return; }
      case Instruction::Select: { auto& S = cast<SelectInst>(I); if (S.getCondition()->getType()->isVectorTy()) return; d.op = D_SELECT; d.sub = I.getType()->isPointerTy(); d.a = opnd(S.getCondition()); d.b = opnd(S.getTrueValue()); d.c = opnd(S.getFalseValue()); countLeaves(I.getType(), &d.leaves); return; }
      case Instruction::Ret: { d.op = D_RET; auto* v = cast<ReturnInst>(I).getReturnValue(); if (v) { d.a = opnd(v); d.n = countLeaves(v->getType()); } else d.n = 0; return; }
      case Instruction::Unreachable: d.op = D_UNREACHABLE; return;
      case Instruction::ExtractValue: { auto& X = cast<ExtractValueInst>(I); d.op = D_COPY; int a = opnd(X.getAggregateOperand()); unsigned o = aggIndex(X.getAggregateOperand()->getType(), X.getIndices()); d.a = a >= 0 ? a + (int)o : a - (int)o; return; }
      case Instruction::InsertValue: { auto& X = cast<InsertValueInst>(I); d.op = D_INSERT; d.a = opnd(X.getAggregateOperand()); d.b = opnd(X.getInsertedValueOperand()); d.imm = aggIndex(X.getType(), X.getIndices()); d.c = countLeaves(X.getInsertedValueOperand()->getType()); return; }
      case Instruction::LandingPad: {
        auto& L = cast<LandingPadInst>(I); d.op = D_LANDINGPAD; d.cleanup = L.isCleanup();
        for (unsigned i = 0; i < L.getNumClauses(); i++) {
          std::vector<uint64_t> v; Constant* c = L.getClause(i);
          if (L.isCatch(i)) v.push_back(constAddr(c));
          else if (auto* at = dyn_cast<ArrayType>(c->getType())) for (unsigned k = 0; k < at->getNumElements(); k++) v.push_back(constAddr(c->getAggregateElement(k)));
          d.clauses.push_back({L.isCatch(i) ? 0 : 1, v});
        }
        return; }
      case Instruction::Resume: d.op = D_RESUME; d.a = opnd(I.getOperand(0)); return;
      case Instruction::Fence: d.op = D_NOP; return;
      case Instruction::AtomicCmpXchg: { auto& X = cast<AtomicCmpXchgInst>(I); d.op = D_CMPXCHG; d.a = opnd(X.getPointerOperand()); d.b = opnd(X.getCompareOperand()); d.c = opnd(X.getNewValOperand()); d.w2 = typeW(X.getCompareOperand()->getType()); return; }
      case Instruction::AtomicRMW: { auto& X = cast<AtomicRMWInst>(I); d.op = D_RMW; d.a = opnd(X.getPointerOperand()); d.b = opnd(X.getValOperand()); d.sub = X.getOperation(); d.w2 = typeW(X.getType()); return; }
      case Instruction::Call: case Instruction::Invoke: {
        auto& C = cast<CallBase>(I);
        d.invoke = isa<InvokeInst>(I);
        if (d.invoke) { auto& V = cast<InvokeInst>(I); d.edges = {edge(I.getParent(), V.getNormalDest()), edge(I.getParent(), V.getUnwindDest())}; }
        if (isa<DbgInfoIntrinsic>(I)) { d.op = D_NOP; return; }
        if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
          switch (ii->getIntrinsicID()) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::vaend: d.op = D_NOP; if (d.n == 0) return; break;
            default: break;
          }
        }
        if (C.isInlineAsm()) { d.op = D_NOP; return; }   // memory barriers and pause hints only (checked by the driver)
        d.op = D_CALL;
        const Function* cf = C.getCalledFunction();
        if (!cf) { if (auto* al = dyn_cast<GlobalAlias>(C.getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(al->getAliaseeObject()); else cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts()); }
        if (cf) d.callee = g_funcMap[cf]; else d.a = opnd(C.getCalledOperand());
        for (auto& a : C.args()) {
          if (a->getType()->isMetadataTy()) { d.args.push_back(0); d.aw.push_back(0); continue; }
          std::vector<Leaf> lv; countLeaves(a->getType(), &lv); int s = opnd(a);
          for (size_t k = 0; k < lv.size(); k++) { d.args.push_back(s >= 0 ? s + (int)k : s - (int)k); d.aw.push_back(lv[k].w); }
        }
        for (unsigned k = 0; k < C.arg_size(); k++) if (C.isByValArgument(k)) { d.cases.push_back(k); d.terms.push_back({(int)k, (int64_t)DL->getTypeAllocSize(C.getParamByValType(k)), 0}); }
        return; }
      case Instruction::VAArg: return;
      default: return;
    }
  }
};
void decode(DFunc* f) {
  if (f->decoded) return; f->decoded = true;
  Decoder d(*f); d.run();
}
std::string locStr(const Instruction* I) {
  if (!I) return "?";
  if (auto& dl = I->getDebugLoc()) {
    std::string fn = dl->getFilename().str(); auto p = fn.find("/src/lightspeed/"); if (p != std::string::npos) fn = fn.substr(p + 5);
    return fn + ":" + std::to_string(dl.getLine());
  }
  return I->getFunction()->getName().str();
}
