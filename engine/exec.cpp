#include "exec.hpp"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/APInt.h>
#include <chrono>
#include <atomic>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sys/resource.h>
using namespace llvm;
namespace cosym {

struct Exec {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL = nullptr; Options opt;
  std::unordered_map<const Function*, Fn*> fns; std::unordered_map<u64, Function*> funcById; std::unordered_map<const GlobalValue*, u64> gaddr; std::unordered_map<u64, std::string> gnameByAddr;
  std::unordered_map<std::string, Handler> handlers; State* init = nullptr; std::vector<std::unique_ptr<State>> work;
  std::vector<Function*> phases; std::unordered_map<u64, int> tiSel; std::unordered_map<std::string, u64> extTI;
  std::deque<Handler> dynHandlers; 
  // results
  u64 paths = 0, truncated = 0, forks = 0, instrs = 0, checks = 0, symChecks = 0, unsupported = 0, assumeKilled = 0, memChecks = 0; std::map<std::string, u64> reach; std::map<std::string, u64> unsup; std::vector<Violation> viols; std::set<std::string> violKeys; std::set<std::string> fnsRun; u64 violTotal = 0;
  std::map<std::string, u64> checkMsgs; 
  std::chrono::steady_clock::time_point t0; std::vector<std::vector<std::pair<std::string, u64>>> samples;
  bool timeUp = false; std::function<void()> onReport;
  std::unordered_map<u64, E> symCache; 

  // once something was found the search goes on only a little longer
  std::atomic<double>* limit = nullptr; double maxSecs() { return limit ? limit->load() : opt.maxSecs; } void found() { if (!limit) return; double now = elapsed(), l = std::max(now * 1.5, now + 20); double c = limit->load(); while (l < c && !limit->compare_exchange_weak(c, l)) {} g_deadline = t0 + std::chrono::milliseconds((u64)(std::min(l, c) * 1000)); }
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ---------- setup ----------
  void load(const std::string& path) {
    SMDiagnostic err; M = parseIRFile(path, err, ctx); if (!M) { err.print("cosym", errs()); exit(3); } DL = &M->getDataLayout(); }

  static bool isStreamName(StringRef n) {
    return n.contains("basic_ostream") || n.contains("basic_stringstream") || n.contains("basic_ostringstream") || n.contains("basic_stringbuf") || n.contains("basic_ios") || n.contains("basic_streambuf") || n.contains("St6locale") || n.contains("basic_iostream") || n.contains("St8ios_base") || n.starts_with("_ZNSo") || n.starts_with("_ZNKSo") || n.starts_with("_ZNSi") || n.starts_with("_ZNSd") || n.starts_with("_ZStlsISt11char_traits") || n.starts_with("_ZStlsIcSt11char_traits") || n.starts_with("_ZSt4endl"); }

  void setup() {
    init = new State; init->th.emplace_back();
    State& s = *init;
    for (auto& F : *M) { if (F.isIntrinsic()) continue; auto* o = new Obj; o->size = 16; o->align = 16; o->kind = O_FUNC; o->ro = true; o->name = strdup(F.getName().str().c_str()); u64 id = s.mem.add(o); gaddr[&F] = s.mem.get(id)->base; funcById[s.mem.get(id)->base] = &F; }
    for (auto& G : M->globals()) { if (G.isThreadLocal()) continue; if (G.getName().starts_with("llvm.")) { gaddr[&G] = 0; continue; } u64 a = newGlobal(s, G); gaddr[&G] = a; }
    for (auto& A : M->aliases()) gaddr[&A] = 0; 
    for (auto& A : M->aliases()) { auto* o = A.getAliaseeObject(); if (o && gaddr.count(o)) gaddr[&A] = gaddr[o]; }
    for (auto& G : M->globals()) { if (G.isThreadLocal() || !G.hasInitializer() || gaddr[&G] == 0) continue; initGlobal(s, gaddr[&G], *G.getInitializer()); s.mem.getW(gaddr[&G] >> ID_SHIFT)->ro = G.isConstant(); }
    for (auto& G : M->globals()) if (gaddr.count(&G)) gnameByAddr[gaddr[&G]] = G.getName().str();
    if (auto* ctors = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(ctors->getInitializer())) {
      std::vector<std::pair<u64, Function*>> v; for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) phases.push_back(p.second); }
    auto* en = M->getFunction(opt.entry); if (!en || en->isDeclaration()) { errs() << "cosym: no entry " << opt.entry << "\n"; exit(3); } phases.push_back(en);
    s.model = std::make_shared<Assignment>();
    setupHandlers();
  }
  u64 newGlobal(State& s, GlobalVariable& G) { auto* o = new Obj; Type* T = G.getValueType(); o->size = T->isSized() ? (u64)DL->getTypeAllocSize(T) : 64; if (G.isDeclaration() && o->size < 256) o->size = 256; 
    MaybeAlign ma = G.getAlign(); o->align = ma ? ma->value() : DL->getPreferredAlign(&G).value(); o->kind = G.isThreadLocal() ? O_TLS : O_GLOBAL; o->zeroed = true; o->name = strdup(G.getName().str().c_str()); u64 id = s.weak ? wAlloc(s, o) : s.mem.add(o); return s.mem.get(id)->base; }
  void initGlobal(State& s, u64 addr, const Constant& c) {
    Type* T = c.getType(); u64 sz = DL->getTypeAllocSize(T);
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // zeroed
    if (auto* cds = dyn_cast<ConstantDataSequential>(&c)) { u64 es = DL->getTypeAllocSize(cds->getElementType()); for (unsigned i = 0; i < cds->getNumElements(); i++) initGlobal(s, addr + i * es, *cds->getElementAsConstant(i)); return; }
    if (auto* st = dyn_cast<StructType>(T)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(s, addr + sl->getElementOffset(i), *c.getAggregateElement(i)); return; }
    if (auto* at = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initGlobal(s, addr + i * es, *c.getAggregateElement(i)); return; }
    if (isa<FixedVectorType>(T)) { auto* vt = cast<FixedVectorType>(T); u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) initGlobal(s, addr + i * es, *c.getAggregateElement(i)); return; }
    std::vector<Opnd> l; constLeaves(&c, l); rawStore(s, addr, l[0].imm, l[0].w); (void)sz;
  }

  // ---------- lowering ----------
  u16 widthOf(Type* T) { if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; return 0; }
  void typeLeaves(Type* T, u64 off, std::vector<Leaf>& out) {
    if (auto* st = dyn_cast<StructType>(T)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) typeLeaves(st->getElementType(i), off + sl->getElementOffset(i), out); }
    else if (auto* at = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) typeLeaves(at->getElementType(), off + i * es, out); }
    else if (auto* vt = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) typeLeaves(vt->getElementType(), off + i * es, out); }
    else if (T->isVoidTy()) {} else { out.push_back({off, widthOf(T)}); } }
  static Val wideConst(const APInt& a) { unsigned w = a.getBitWidth(); if (w <= 64) return Val(a.getZExtValue()); E e = nullptr; for (unsigned lo = 0; lo < w; lo += 64) { unsigned n = std::min(64u, w - lo); E p = mkConst(a.extractBitsAsZExtValue(n, lo), n); e = e ? mkConcat(p, e) : p; } return Val(e); }
  u64 constInt(const Constant* c) { std::vector<Opnd> l; constLeaves(c, l); return l[0].imm.c; }
  void constLeaves(const Constant* c, std::vector<Opnd>& out) {
    Type* T = c->getType(); u16 w = widthOf(T);
    auto push = [&](Val v) { Opnd o; o.w = w; o.imm = v; out.push_back(o); };
    if (auto* ci = dyn_cast<ConstantInt>(c)) return push(wideConst(ci->getValue()));
    if (auto* cf = dyn_cast<ConstantFP>(c)) return push(wideConst(cf->getValueAPF().bitcastToAPInt()));
    if (isa<ConstantPointerNull>(c)) return push(Val(0));
    if (auto* g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); return push(Val(it == gaddr.end() ? 0 : it->second)); }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { std::vector<Leaf> l; typeLeaves(T, 0, l); for (auto& x : l) { Opnd o; o.w = x.w; o.imm = x.w > 64 ? Val(mkZeroWide(x.w)) : Val(0); out.push_back(o); } return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* gep = cast<GEPOperator>(ce); gep->accumulateConstantOffset(*DL, off); return push(Val(constInt(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue())); }
      case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::AddrSpaceCast: return push(Val(constInt(ce->getOperand(0)) & mask(w)));
      case Instruction::Trunc: return push(Val(constInt(ce->getOperand(0)) & mask(w)));
      case Instruction::Add: return push(Val((constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & mask(w)));
      case Instruction::Sub: return push(Val((constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & mask(w)));
      case Instruction::ICmp: { u64 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1)); bool r = false; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_ULE: r = a <= b; break; case CmpInst::ICMP_UGE: r = a >= b; break; default: break; } return push(Val(r)); }
      default: errs() << "cosym: constexpr " << *ce << "\n"; return push(Val(0)); } }
    if (c->getType()->isAggregateType() || c->getType()->isVectorTy()) { std::vector<Leaf> l; unsigned n = 0; if (auto* st = dyn_cast<StructType>(T)) n = st->getNumElements(); else if (auto* at = dyn_cast<ArrayType>(T)) n = at->getNumElements(); else n = cast<FixedVectorType>(T)->getNumElements(); for (unsigned i = 0; i < n; i++) constLeaves(c->getAggregateElement(i), out); return; }
    errs() << "cosym: const " << *c << "\n"; push(Val(0));
  }
  Fn* getFn(const Function* F) { auto it = fns.find(F); if (it != fns.end()) return it->second; auto* f = new Fn; f->F = const_cast<Function*>(F); f->name = F->getName().str(); fns[F] = f; return f; }

  struct LowerCtx { Fn* fn; std::unordered_map<const Value*, int> reg; std::unordered_map<const BasicBlock*, u32> bb; };
  int nleaves(Type* T) { std::vector<Leaf> l; typeLeaves(T, 0, l); return l.size(); }
  int regOf(LowerCtx& L, const Value* v) { auto it = L.reg.find(v); if (it != L.reg.end()) return it->second; int n = nleaves(v->getType()); int r = L.fn->nregs; L.fn->nregs += n; L.reg[v] = r; return r; }
  void leavesOf(LowerCtx& L, const Value* v, std::vector<Opnd>& out) {
    if (auto* g = dyn_cast<GlobalVariable>(v); g && g->isThreadLocal()) { Ins m; m.op = OP_ICALL; m.h = &tlsHandler(const_cast<GlobalVariable*>(g)); m.dst = L.fn->nregs++; m.nret = 1; m.retW = {64}; m.w = 64; Opnd o; o.reg = m.dst; o.w = 64; L.fn->code.push_back(std::move(m)); out.push_back(o); return; }
    if (auto* c = dyn_cast<Constant>(v)) return constLeaves(c, out);
    if (v->getType()->isMetadataTy() || v->getType()->isTokenTy()) { out.push_back(Opnd{}); return; }
    std::vector<Leaf> l; typeLeaves(v->getType(), 0, l); int r = regOf(L, v); for (size_t i = 0; i < l.size(); i++) { Opnd o; o.reg = r + i; o.w = l[i].w; out.push_back(o); } }
  Opnd one(LowerCtx& L, const Value* v) { std::vector<Opnd> o; leavesOf(L, v, o); if (o.empty()) return Opnd{}; return o[0]; }
  u32 mkEdge(LowerCtx& L, const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = (u32)-1; for (auto& I : *to) { auto* ph = dyn_cast<PHINode>(&I); if (!ph) break; std::vector<Opnd> src; leavesOf(L, ph->getIncomingValueForBlock(from), src); int d = regOf(L, ph); for (size_t i = 0; i < src.size(); i++) e.phis.push_back({d + (int)i, src[i]}); }
    L.fn->edges.push_back(e); edgeTo.push_back({L.fn->edges.size() - 1, to}); return L.fn->edges.size() - 1; }
  std::vector<std::pair<size_t, const BasicBlock*>> edgeTo;

  void lower(Fn* fn) {
    fn->lowered = true; Function& F = *fn->F; LowerCtx L; L.fn = fn; edgeTo.clear();
    std::string file; if (auto* sp = F.getSubprogram()) file = sp->getFilename().str(); fn->repo = file.find("co_ecs/") != std::string::npos && file.find("/verif/") == std::string::npos;
    for (auto& A : F.args()) { fn->argRegs.push_back(regOf(L, &A)); std::vector<Leaf> l; typeLeaves(A.getType(), 0, l); fn->argW.push_back(l.size()); }
    for (auto& B : F) { L.bb[&B] = fn->code.size(); for (auto& I : B) { if (isa<PHINode>(I)) continue; lowerIns(L, I); } }
    for (auto& p : edgeTo) fn->edges[p.first].target = L.bb[p.second];
    for (auto& i : fn->code) i.parent = fn;
  }
  static u8 ordOf(AtomicOrdering o) { return (u8)o; }
  void lowerIns(LowerCtx& L, Instruction& I) {
    Ins n; n.I = &I; Type* T = I.getType(); n.op = OP_UNSUPPORTED; 
    if (!T->isVoidTy()) { n.dst = regOf(L, &I); n.w = widthOf(T); }
    auto emit = [&] { L.fn->code.push_back(std::move(n)); };
    auto opn = [&](unsigned i) { leavesOf(L, I.getOperand(i), n.ops); };
    if (auto* bo = dyn_cast<BinaryOperator>(&I)) { 
      if (T->isFPOrFPVectorTy()) { n.op = OP_FBIN; n.sub = bo->getOpcode(); opn(0); opn(1); return emit(); }
      if (T->isVectorTy()) { std::vector<Opnd> a, b; leavesOf(L, I.getOperand(0), a); leavesOf(L, I.getOperand(1), b); for (size_t i = 0; i < a.size(); i++) { Ins m; m.I = &I; m.op = OP_BIN; m.sub = bo->getOpcode(); m.w = a[i].w; m.dst = n.dst + i; m.ops = {a[i], b[i]}; L.fn->code.push_back(m); } return; }
      n.op = OP_BIN; n.sub = bo->getOpcode(); opn(0); opn(1); return emit(); }
    if (auto* ic = dyn_cast<ICmpInst>(&I)) { n.op = OP_ICMP; n.sub = ic->getPredicate(); opn(0); opn(1); n.w = n.ops.empty() ? 64 : n.ops[0].w; if (n.ops.size() != 2) n.op = OP_UNSUPPORTED; return emit(); }
    if (isa<FCmpInst>(&I)) { n.op = OP_FBIN; n.sub = 200; n.k = cast<FCmpInst>(I).getPredicate(); opn(0); opn(1); return emit(); }
    if (isa<SelectInst>(&I)) { std::vector<Opnd> c, a, b; leavesOf(L, I.getOperand(0), c); leavesOf(L, I.getOperand(1), a); leavesOf(L, I.getOperand(2), b); int d = n.dst; for (size_t i = 0; i < a.size(); i++) { Ins m; m.I = &I; m.op = OP_SELECT; m.dst = d + i; m.w = a[i].w; m.ops = {c.size() > 1 ? c[i] : c[0], a[i], b[i]}; L.fn->code.push_back(m); } return; }
    if (isa<CastInst>(&I)) { switch (I.getOpcode()) { case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { opn(0); if (n.ops.size() != 1 || nleaves(T) != 1) { n.op = OP_UNSUPPORTED; return emit(); } n.op = OP_CAST; n.sub = I.getOpcode() == Instruction::SExt ? 1 : 0; return emit(); } 
        case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: n.op = OP_FBIN; n.sub = 100 + I.getOpcode(); opn(0); return emit();
        default: return emit(); } }
    if (isa<FreezeInst>(&I)) { n.op = OP_COPY; opn(0); return emit(); }
    if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { n.op = OP_GEP; opn(0); u64 off = 0; for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value* idx = it.getOperand(); if (auto* st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); else { u64 sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) off += sz * ci->getSExtValue(); else { n.ops.push_back(one(L, idx)); n.scales.push_back(sz); } } } n.k = off; return emit(); }
    if (auto* ld = dyn_cast<LoadInst>(&I)) { n.op = OP_LOAD; opn(0); typeLeaves(T, 0, n.leaves); n.k = ld->getAlign().value(); n.ord = ordOf(ld->getOrdering()); n.k2 = DL->getTypeStoreSize(T); return emit(); }
    if (auto* st = dyn_cast<StoreInst>(&I)) { n.op = OP_STORE; n.ops.push_back(one(L, st->getPointerOperand())); leavesOf(L, st->getValueOperand(), n.ops); typeLeaves(st->getValueOperand()->getType(), 0, n.leaves); n.k = st->getAlign().value(); n.ord = ordOf(st->getOrdering()); n.k2 = DL->getTypeStoreSize(st->getValueOperand()->getType()); return emit(); }
    if (auto* al = dyn_cast<AllocaInst>(&I)) { n.op = OP_ALLOCA; n.k = DL->getTypeAllocSize(al->getAllocatedType()); n.k2 = al->getAlign().value(); n.ops.push_back(one(L, al->getArraySize())); return emit(); }
    if (auto* br = dyn_cast<BranchInst>(&I)) { auto* B = I.getParent(); if (br->isUnconditional()) { n.op = OP_BR; n.e0 = mkEdge(L, B, br->getSuccessor(0)); } else { n.op = OP_CONDBR; opn(0); n.e0 = mkEdge(L, B, br->getSuccessor(0)); n.e1 = mkEdge(L, B, br->getSuccessor(1)); } return emit(); }
    if (auto* sw = dyn_cast<SwitchInst>(&I)) { n.op = OP_SWITCH; n.ops.push_back(one(L, sw->getCondition())); n.e0 = mkEdge(L, I.getParent(), sw->getDefaultDest()); for (auto& c : sw->cases()) n.cases.push_back({c.getCaseValue()->getValue().getZExtValue(), mkEdge(L, I.getParent(), c.getCaseSuccessor())}); return emit(); }
    if (isa<ReturnInst>(&I)) { n.op = OP_RET; if (I.getNumOperands()) opn(0); return emit(); }
    if (isa<UnreachableInst>(&I)) { n.op = OP_UNREACHABLE; return emit(); }
    if (isa<ResumeInst>(&I)) { n.op = OP_RESUME; opn(0); return emit(); }
    if (isa<LandingPadInst>(&I)) { n.op = OP_LANDINGPAD; return emit(); }
    if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { std::vector<Opnd> a; leavesOf(L, ev->getAggregateOperand(), a); int off = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices()); int cnt = nleaves(T); n.op = OP_COPY; for (int i = 0; i < cnt; i++) n.ops.push_back(a[off + i]); return emit(); }
    if (auto* iv = dyn_cast<InsertValueInst>(&I)) { std::vector<Opnd> a, v; leavesOf(L, iv->getAggregateOperand(), a); leavesOf(L, iv->getInsertedValueOperand(), v); int off = leafIndex(T, iv->getIndices()); for (size_t i = 0; i < v.size(); i++) a[off + i] = v[i]; n.op = OP_COPY; n.ops = a; return emit(); }
    if (auto* ee = dyn_cast<ExtractElementInst>(&I)) { if (auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { std::vector<Opnd> a; leavesOf(L, ee->getVectorOperand(), a); n.op = OP_COPY; n.ops = {a[ci->getZExtValue()]}; } return emit(); }
    if (auto* ie = dyn_cast<InsertElementInst>(&I)) { if (auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2))) { std::vector<Opnd> a; leavesOf(L, ie->getOperand(0), a); a[ci->getZExtValue()] = one(L, ie->getOperand(1)); n.op = OP_COPY; n.ops = a; } return emit(); }
    if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { n.op = OP_CMPXCHG; n.ops = {one(L, cx->getPointerOperand()), one(L, cx->getCompareOperand()), one(L, cx->getNewValOperand())}; n.w = n.ops[1].w; n.ord = ordOf(cx->getSuccessOrdering()); n.ord2 = ordOf(cx->getFailureOrdering()); n.k = cx->getAlign().value(); n.sub = cx->isWeak(); return emit(); }
    if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { n.op = OP_RMW; n.ops = {one(L, rm->getPointerOperand()), one(L, rm->getValOperand())}; n.w = n.ops[1].w; n.sub = rm->getOperation(); n.ord = ordOf(rm->getOrdering()); n.k = rm->getAlign().value(); return emit(); }
    if (auto* fe = dyn_cast<FenceInst>(&I)) { n.op = OP_FENCE; n.ord = ordOf(fe->getOrdering()); n.sub = fe->getSyncScopeID() == SyncScope::SingleThread; return emit(); }
    if (auto* cb = dyn_cast<CallBase>(&I)) return lowerCall(L, *cb, std::move(n));
    emit();
  }
  int leafIndex(Type* T, ArrayRef<unsigned> idx) { int r = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; j++) r += nleaves(st->getElementType(j)); T = st->getElementType(i); } else { auto* at = cast<ArrayType>(T); r += i * nleaves(at->getElementType()); T = at->getElementType(); } } return r; }

  void lowerCall(LowerCtx& L, CallBase& cb, Ins n) {
    auto emit = [&] { L.fn->code.push_back(std::move(n)); };
    std::vector<Leaf> rl; typeLeaves(cb.getType(), 0, rl); n.nret = rl.size(); for (auto& x : rl) n.retW.push_back(x.w);
    if (auto* iv = dyn_cast<InvokeInst>(&cb)) { n.isInvoke = true; n.e0 = mkEdge(L, cb.getParent(), iv->getNormalDest()); n.e1 = mkEdge(L, cb.getParent(), iv->getUnwindDest());
      auto* lp = iv->getLandingPadInst(); n.isCleanup = lp->isCleanup(); n.k2 = 0; for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) n.clauses.push_back(constInt(lp->getClause(i))); else { n.clauses.push_back(~0ull); } } n.scales.push_back(regOf(L, lp)); }
    Function* F = cb.getCalledFunction(); if (!F) F = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
    if (cb.isInlineAsm()) { n.op = OP_COPY; n.ops.clear(); if (n.nret == 0 && !n.isInvoke) return emit(); n.op = OP_UNSUPPORTED; return emit(); }
    if (F && F->isIntrinsic()) {
      auto id = F->getIntrinsicID();
      switch (id) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation:
        if (n.isInvoke) { n.op = OP_BR; return emit(); } return;
      case Intrinsic::threadlocal_address: { auto* g = cast<GlobalVariable>(cb.getArgOperand(0)); n.op = OP_ICALL; n.h = &tlsHandler(g); return emit(); }
      default: break; }
      std::string nm = F->getName().str(); std::string base = nm; // strip type suffixes
      for (auto& a : cb.args()) { size_t before = n.ops.size(); leavesOf(L, a, n.ops); n.argLeaves.push_back(n.ops.size() - before); }
      n.op = OP_ICALL; n.h = intrinsicHandler(id, nm); n.extName = nm; if (!n.h) n.op = OP_UNSUPPORTED; n.k = id; return emit(); }
    for (unsigned i = 0; i < cb.arg_size(); i++) { size_t before = n.ops.size(); leavesOf(L, cb.getArgOperand(i), n.ops); n.argLeaves.push_back(n.ops.size() - before); n.byval.push_back(cb.isByValArgument(i) ? (u64)DL->getTypeAllocSize(cb.getParamByValType(i)) : 0); }
    if (F) { n.extName = F->getName().str(); n.h = handlerFor(F, cb); if (n.h) { n.op = OP_ICALL; return emit(); }
      if (F->isDeclaration()) { n.op = OP_ICALL; dynHandlers.push_back([this, nm = F->getName().str()](State& s, const Ins&, std::vector<Val>&) { return unsupp(s, "external call " + demangle(nm)); }); n.h = &dynHandlers.back(); return emit(); }
      n.op = OP_CALL; n.callee = getFn(F); return emit(); }
    n.op = OP_CALL; n.callee = nullptr; n.ops.insert(n.ops.begin(), one(L, cb.getCalledOperand())); emit();
  }
#include "weak.inc"
#include "exec_run.inc"
#include "exec_ext.inc"
};
}
#include "exec_main.inc"
