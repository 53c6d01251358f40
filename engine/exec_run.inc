  // ---------- reporting ----------
  std::string whereOf(const Frame& f) { std::string r = demangle(f.fn->name); if (r.size() > 140) r = r.substr(0, 140) + "..."; if (f.pc < f.fn->code.size() && f.fn->code[f.pc].I) if (auto& dl = f.fn->code[f.pc].I->getDebugLoc()) r += " (" + dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")"; return r; }
  std::string repoLoc(const Thread& t) { for (size_t i = t.stack.size(); i-- > 0;) { auto& f = t.stack[i]; if (f.pc < f.fn->code.size() && f.fn->code[f.pc].I) if (auto& dl = f.fn->code[f.pc].I->getDebugLoc()) { std::string fn = dl->getFilename().str(); if (fn.find("co_ecs/") != std::string::npos && fn.find("/verif/") == std::string::npos) return fn.substr(fn.find("co_ecs/")) + ":" + std::to_string(dl.getLine()); } } return "harness"; }
  void report(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr) {
    violTotal++;
    auto& t = s.t(); std::string loc = repoLoc(t); std::string key = kind + "|" + msg + "|" + loc; if (!violKeys.insert(key).second || (int)viols.size() >= opt.maxViol) return;
    Violation v; v.kind = kind; v.msg = msg; v.where = loc; for (size_t i = t.stack.size(); i-- > 0 && v.stack.size() < 14;) v.stack.push_back(whereOf(t.stack[i]));
    const Assignment& a = m ? **m : *s.model; for (auto& l : s.log) { v.inputs.push_back({l.name, l.kind == 1 ? l.conc : evalE(l.e, a)}); v.kinds.push_back(l.kind); } v.schedule = s.schedule; viols.push_back(v); found(); if (onReport) onReport(); }
  R violate(State& s, const std::string& kind, const std::string& msg) { if (s.weak) return wViolation(s, kind, msg); report(s, kind, msg); return R::Dead; }
  R unsupp(State& s, const std::string& what) { unsupported++; std::string k = what; if (s.th.size() && !s.t().stack.empty()) k += " @ " + repoLoc(s.t()); unsup[k]++; return R::Dead; }

#include "race.inc"
  // ---------- memory ----------
  E envSym(State& s, unsigned w) { u64 key = (1ull << 40) | ((u64)w << 32) | s.envCount++; auto it = symCache.find(key); if (it != symCache.end()) return it->second; E e = mkSym("env" + std::to_string(s.envCount - 1) + "_" + std::to_string(w), w); symCache[key] = e; return e; }
  Obj* objAt(State& s, u64 addr) { Obj* o = s.mem.get(addr >> ID_SHIFT); if (!o && s.weak) return wForeign(s, addr >> ID_SHIFT); return o; }
  bool access(State& s, u64 addr, u64 n, u64 align, bool wr, R& r, int how = 0) {   // how: 1 atomic, 2 synchronisation object
    memChecks++;
    Obj* o = objAt(s, addr);
    if (!o) { r = violate(s, "memory", (addr < 4096 ? std::string("null pointer ") : std::string("wild pointer ")) + (wr ? "write" : "read")); return false; }
    if (!o->alive) { r = violate(s, "memory", std::string(o->kind == O_STACK ? "use after scope/return" : "use after free") + (wr ? " (write)" : " (read)")); return false; }
    u64 off = addr - o->base; if (addr < o->base || off + n > o->size || off + n < off) { r = violate(s, "memory", std::string("out-of-bounds ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)off) + " of " + (o->kind == O_STACK ? "stack" : o->kind == O_GLOBAL || o->kind == O_TLS ? "global" : "heap") + " object of " + std::to_string(o->size) + " bytes"); return false; }
    if (o->kind == O_FUNC) { r = violate(s, "memory", "data access to code"); return false; }
    if (wr && o->ro) { r = violate(s, "memory", "write to constant"); return false; }
    if (align > 1 && (addr & (align - 1))) { r = violate(s, "memory", "misaligned access: needs " + std::to_string(align) + "-byte alignment"); return false; }
    if (s.weak) wTouchAt(s, addr, n, wr); else if (how != 2 && racing(s) && !rAccess(s, addr, n, wr, how == 1, r)) return false;
    return true; }
  u64 rawLoad8(State& s, u64 addr, E* out) { // returns concrete byte or sets *out
    Obj* o = objAt(s, addr); u64 off = addr - o->base; Page* p = o->pageR(off); unsigned i = off & 63;
    if (!p) { if (o->zeroed) return 0; }
    else { if ((p->symm >> i) & 1) { *out = p->sb->s[i]; return 0; } if (!((p->uninit >> i) & 1)) return p->b[i]; }
    // uninitialised: arbitrary but stable
    E e = envSym(s, 8); Obj* ow = s.mem.getW(addr >> ID_SHIFT); Page* w = ow->pageW(off); w->uninit &= ~(1ull << i); if (!w->sb) w->sb = new SymBytes; w->sb->s[i] = e; w->symm |= 1ull << i; *out = e; return 0; }
  Val rawLoad(State& s, u64 addr, unsigned w) {
    unsigned n = (w + 7) / 8; Obj* o = objAt(s, addr); u64 off = addr - o->base; unsigned i = off & 63;
    if (n <= 8 && i + n <= 64) { Page* p = o->pageR(off); if (!p) { if (o->zeroed) return Val(0); }
      else { u64 m = (n == 64 ? ~0ull : ((1ull << n) - 1)) << i; if (!((p->symm | p->uninit) & m)) { u64 v = 0; memcpy(&v, p->b + i, n); return Val(v & mask(w)); } } }
    E r = nullptr; bool sym = false; u64 conc = 0; 
    std::vector<E> bytes(n); for (unsigned k = 0; k < n; k++) { E e = nullptr; u64 c = rawLoad8(s, addr + k, &e); if (e) { sym = true; bytes[k] = e; } else { bytes[k] = nullptr; if (k < 8) conc |= c << (8 * k); if (n > 8) bytes[k] = mkConst(c, 8); else bytes[k] = mkConst(c, 8); } }
    if (!sym && n <= 8) return Val(conc & mask(w));
    for (unsigned k = 0; k < n; k++) r = r ? mkConcat(bytes[k], r) : bytes[k];
    if (r->k == K_EXTRACT) r = mkExtract(r->a, r->c, r->w);
    if (w < 8 * n) r = mkExtract(r, 0, w);
    return Val(r); }
  void rawStore(State& s, u64 addr, const Val& v, unsigned w) {
    unsigned n = (w + 7) / 8; Obj* o = s.mem.getW(addr >> ID_SHIFT); u64 off = addr - o->base;
    if (!v.e && n <= 8) { u64 x = v.c & mask(w); 
      unsigned i = off & 63; if (i + n <= 64) { Page* p = o->pageW(off); memcpy(p->b + i, &x, n); u64 m = ((n >= 64) ? ~0ull : ((1ull << n) - 1)) << i; p->symm &= ~m; p->uninit &= ~m; return; }
      for (unsigned k = 0; k < n; k++) { Page* p = o->pageW(off + k); unsigned j = (off + k) & 63; p->b[j] = x >> (8 * k); p->symm &= ~(1ull << j); p->uninit &= ~(1ull << j); } return; }
    E e = toE(v, w); if (w < 8 * n) e = mkZExt(e, 8 * n);
    for (unsigned k = 0; k < n; k++) { E b = mkExtractRaw(e, 8 * k, 8); Page* p = o->pageW(off + k); unsigned j = (off + k) & 63; p->uninit &= ~(1ull << j);
      if (isC(b)) { p->b[j] = b->c; p->symm &= ~(1ull << j); } else { if (!p->sb) p->sb = new SymBytes; p->sb->s[j] = b; p->symm |= 1ull << j; } } }
  void rawCopy(State& s, u64 dst, u64 src, u64 n) { // byte copy preserving symbolic/uninit; regions may overlap
    if (n == 0 || dst == src) return; struct B { u8 b; u8 k; E e; }; std::vector<B> buf(n);
    Obj* o = objAt(s, src); u64 so = src - o->base;
    for (u64 i = 0; i < n; i++) { Page* p = o->pageR(so + i); unsigned j = (so + i) & 63; B x{0, 0, nullptr}; if (!p) { if (!o->zeroed) x.k = 2; } else if ((p->symm >> j) & 1) { x.k = 1; x.e = p->sb->s[j]; } else if ((p->uninit >> j) & 1) x.k = 2; else x.b = p->b[j]; buf[i] = x; }
    Obj* d = s.mem.getW(dst >> ID_SHIFT); u64 od = dst - d->base;
    for (u64 i = 0; i < n; i++) { Page* p = d->pageW(od + i); unsigned j = (od + i) & 63; u64 bit = 1ull << j; auto& x = buf[i]; p->symm &= ~bit; p->uninit &= ~bit; if (x.k == 0) p->b[j] = x.b; else if (x.k == 1) { if (!p->sb) p->sb = new SymBytes; p->sb->s[j] = x.e; p->symm |= bit; } else p->uninit |= bit; } }
  // the parameter reuse: like common allocators, give out a released block of this size, the last one (1) or the first one (2) released (sequential entries)
  bool reuseOn() const { if (opt.preempt) return false; auto it = opt.params.find("reuse"); return it != opt.params.end() && it->second; }
  u64 alloc(State& s, u64 size, u64 align, ObjKind k, bool zero = false, const char* name = "") { auto* o = new Obj; o->size = size; o->align = align; o->kind = k; o->zeroed = zero; o->name = name; o->owner = s.cur; u64 id = 0; if (reuseOn() && (k == O_HEAP || k == O_HEAPARR) && !s.weak) { auto it = s.reusable.find({size, align}); if (it != s.reusable.end() && !it->second.empty()) { if (opt.params.at("reuse") == 2) { id = it->second.front(); it->second.erase(it->second.begin()); } else { id = it->second.back(); it->second.pop_back(); } s.mem.put(id, o); } } if (!id) id = s.weak ? wAlloc(s, o) : s.mem.add(o); if (k == O_HEAP || k == O_HEAPARR || k == O_MALLOC) s.heapLive++; return s.mem.get(id)->base; }
  bool freeObj(State& s, u64 addr, ObjKind k, R& r) {
    if (addr == 0) return true; Obj* o = objAt(s, addr); if (!o) { r = violate(s, "memory", "free of wild pointer"); return false; }
    if (!o->alive) { r = violate(s, "memory", "double free"); return false; }
    if (addr != o->base || (o->kind != O_HEAP && o->kind != O_HEAPARR && o->kind != O_MALLOC)) { r = violate(s, "memory", "free of a pointer that was not allocated"); return false; }
    if (o->kind != k) { r = violate(s, "memory", "mismatched deallocation function"); return false; }
    if (s.weak) wPoison(s, o->base, o->size); else if (racing(s) && o->size && !rAccess(s, o->base, o->size, true, false, r)) return false;
    Obj* w = s.mem.getW(addr >> ID_SHIFT); w->alive = false; w->segs.clear(); s.heapLive--; if (reuseOn() && (k == O_HEAP || k == O_HEAPARR) && !s.weak) s.reusable[{w->size, w->align}].push_back(addr >> ID_SHIFT); return true; }

  // ---------- path condition ----------
  void addPC(State& s, E c) { if (isC(c)) return; if (c->k == K_AND) { addPC(s, c->a); addPC(s, c->b); return; } for (E e : s.pc) if (e == c) return; s.pc.push_back(c); }
  std::unique_ptr<State> clone(State& s) { forks++; auto n = std::make_unique<State>(s); n->depth++; return n; }
  void enqueue(std::unique_ptr<State> n) { work.push_back(std::move(n)); }
  // all values of e under the path condition (with a model each)
  bool enumerate(State& s, E e, std::vector<std::pair<u64, Model>>& out, int limit) {
    E excl = mkTrue(); Model m = s.model; 
    while (true) { u64 v = evalE(e, *m); out.push_back({v, m}); excl = mkAnd(excl, mkNe(e, mkConst(v, e->w))); if ((int)out.size() > limit) return false;
      Model nm; Sat r = checkSat(s.pc, excl, s.model, nm); if (r == Sat::No) return true; if (r == Sat::Unknown) { unsup["solver timeout (enumeration)"]++; unsupported++; return true; } m = nm; } }
  // make a register operand concrete, forking over all feasible values
  bool concretize(State& s, const Opnd& op, int limit = 0) {
    if (op.reg < 0) return true; Val& v = s.f().regs[op.reg]; if (!v.e) return true; E e = v.e;
    if (e->w > 64) return false;
    std::vector<std::pair<u64, Model>> vals; bool complete = enumerate(s, e, vals, limit ? limit : opt.maxEnum);
    if (!complete) { truncated++; unsup["more than " + std::to_string(limit ? limit : opt.maxEnum) + " values for a symbolic address/size @ " + repoLoc(s.t())]++; vals.pop_back(); }
    for (size_t i = 1; i < vals.size(); i++) { auto n = clone(s); n->f().regs[op.reg] = Val(vals[i].first); addPC(*n, mkEq(e, mkConst(vals[i].first, e->w))); n->model = vals[i].second; enqueue(std::move(n)); }
    E c = mkEq(e, mkConst(vals[0].first, e->w)); s.f().regs[op.reg] = Val(vals[0].first); if (vals.size() > 1) { addPC(s, c); s.model = vals[0].second; }
    return true; }
  Val get(State& s, const Opnd& o) { return o.reg >= 0 ? s.f().regs[o.reg] : o.imm; }
  void setv(State& s, int d, const Val& v) { s.f().regs[d] = v; }

  void takeEdge(Frame& f, u32 ei) { Edge& e = f.fn->edges[ei]; if (!e.phis.empty()) { if (e.phis.size() == 1) f.regs[e.phis[0].dst] = e.phis[0].src.reg >= 0 ? f.regs[e.phis[0].src.reg] : e.phis[0].src.imm; else { static thread_local std::vector<Val> tmp; tmp.clear(); for (auto& p : e.phis) tmp.push_back(p.src.reg >= 0 ? f.regs[p.src.reg] : p.src.imm); for (size_t i = 0; i < e.phis.size(); i++) f.regs[e.phis[i].dst] = tmp[i]; } } f.pc = e.target; }
  void popFrame(State& s) { auto& f = s.f(); for (u32 a : f.allocas) { Obj* o = s.mem.getW(a); o->alive = false; o->segs.clear(); } s.t().stack.pop_back(); }
  void pushFrame(State& s, Fn* fn, std::vector<Val>&& args) { if (!fn->lowered) lower(fn); if (!fn->entered) { fn->entered = true; } Frame f; f.fn = fn; f.regs.resize(fn->nregs); size_t k = 0; for (size_t i = 0; i < fn->argRegs.size(); i++) for (int j = 0; j < fn->argW[i]; j++) if (k < args.size()) f.regs[fn->argRegs[i] + j] = args[k++]; s.t().stack.push_back(std::move(f)); }
  // finish a call instruction in the (current) frame
  void advance(State& s, const Ins& in) { auto& f = s.f(); if (in.isInvoke) takeEdge(f, in.e0); else f.pc++; }

  // ---------- exceptions ----------
  bool isSubtype(u64 ti, u64 base, int depth = 0) {
    if (ti == base) return true; if (depth > 10) return false;
    std::string n = gnameByAddr.count(ti) ? gnameByAddr[ti] : "", b = gnameByAddr.count(base) ? gnameByAddr[base] : "";
    if (!n.empty() && n == b) return true;
    static const std::map<std::string, std::string> ext = {{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt17bad_function_call","_ZTISt9exception"},{"_ZTISt12system_error","_ZTISt13runtime_error"},{"_ZTISt18bad_variant_access","_ZTISt9exception"},{"_ZTISt19bad_optional_access","_ZTISt9exception"}};
    auto it = ext.find(n); if (it != ext.end()) { std::string p = it->second; while (true) { if (p == b) return true; auto j = ext.find(p); if (j == ext.end()) return false; p = j->second; } }
    auto* g = M->getNamedGlobal(n); if (!g || !g->hasInitializer()) return false; auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
    if (cs->getNumOperands() == 3 && cs->getOperand(2)->getType()->isPointerTy()) return isSubtype(constInt(cs->getOperand(2)), base, depth + 1);
    for (unsigned i = 4; i < cs->getNumOperands(); i += 2) if (cs->getOperand(i)->getType()->isPointerTy() && isSubtype(constInt(cs->getOperand(i)), base, depth + 1)) return true;
    return false; }
  std::string tiName(u64 ti) { auto it = gnameByAddr.find(ti); if (it == gnameByAddr.end()) return "?"; std::string n = demangle(it->second); if (n.rfind("typeinfo for ", 0) == 0) n = n.substr(13); return n; }
  u64 tiByName(State& s, const std::string& n) { if (auto* g = M->getNamedGlobal(n)) return gaddr[g]; auto it = extTI.find(n); if (it != extTI.end()) return it->second; u64 a = 0x7F00000000000000ull + extTI.size() * 16; extTI[n] = a; gnameByAddr[a] = n; return a; }
  u64 selOf(u64 ti) { auto it = tiSel.find(ti); if (it != tiSel.end()) return it->second; int v = tiSel.size() + 1; tiSel[ti] = v; return v; }
  R unwind(State& s, u64 exc) { // the top frame's current instruction throws exc
    u64 ti = s.exc[exc].type; auto& st = s.t().stack; bool found = false;
    for (size_t i = st.size(); i-- > 0 && !found;) { auto& f = st[i]; const Ins& in = f.fn->code[f.pc]; if (!in.isInvoke) continue; for (u64 c : in.clauses) if (c == 0 || (c != ~0ull && isSubtype(ti, c))) { found = true; break; } }
    if (!found) return violate(s, "terminate", "uncaught exception " + tiName(ti));
    while (!st.empty()) { auto& f = st.back(); const Ins& in = f.fn->code[f.pc];
      if (in.isInvoke) { u64 sel = 0; bool hit = in.isCleanup; for (u64 c : in.clauses) { if (c == ~0ull) { return violate(s, "terminate", "exception specification violated by " + tiName(ti)); } if (c == 0 || isSubtype(ti, c)) { sel = selOf(c); hit = true; break; } }
        if (hit) { int r = (int)in.scales[0]; takeEdge(f, in.e1); f.regs[r] = Val(exc); f.regs[r + 1] = Val(sel & 0xffffffff); return R::Stay; } }
      popFrame(s); }
    return violate(s, "terminate", "uncaught exception"); }
  R throwNew(State& s, const std::string& tiname) { u64 a = alloc(s, 64, 16, O_EXC, true, "exception"); s.exc[a] = ExcInfo{tiByName(s, tiname), 0, 0, false}; return unwind(s, a); }
  R callFn(State& s, u64 fnAddr, std::vector<Val> args, bool dropRet) { auto it = funcById.find(fnAddr); if (it == funcById.end()) return violate(s, "memory", "call through an invalid function pointer"); Function* F = it->second;
    if (F->isDeclaration()) return R::Next; Fn* fn = getFn(F); pushFrame(s, fn, std::move(args)); s.f().dropRet = dropRet; return R::Stay; }

  // ---------- scheduler ----------
  bool runnable(State& s, int i) { auto& t = s.th[i]; if (t.st == T_SEM) return rawLoad(s, t.waitOn, 32).c != 0; if (t.st == T_RUN) return true; if (t.st == T_JOIN) return s.th[t.waitOn].st == T_DONE; if (t.st == T_MUTEX) { auto it = s.mutexOwner.find(t.waitOn); return it == s.mutexOwner.end() || it->second < 0; } return false; }
  // the schedule: which thread gave way, after how many of its scheduling points, to which
  static void switched(State& s, int j) { s.schedule.push_back(s.cur); s.schedule.push_back(s.t().ops); s.schedule.push_back(j); s.cur = j; s.th[j].st = T_RUN; }
  // pick another thread (round robin); returns false if none
  bool switchAway(State& s) { if (s.weak) return false; int n = s.th.size(); for (int k = 1; k <= n; k++) { int j = (s.cur + k) % n; if (j != s.cur && runnable(s, j)) { switched(s, j); return true; } } return false; }
  R block(State& s) { if (s.weak) return unsupp(s, "blocking wait among concurrent threads"); if (switchAway(s)) return R::Stay; if (runnable(s, s.cur)) { s.t().st = T_RUN; return R::Stay; } return violate(s, "deadlock", "no thread can make progress"); }

  // ---------- interpreter ----------
  bool branchSym(State& s, E c, u32 et, u32 ef) { // fork on a symbolic condition
    bool v = evalE(c, *s.model); E taken = v ? c : mkNot(c), other = v ? mkNot(c) : c; Model m; Sat r = checkSat(s.pc, other, s.model, m);
    if (r == Sat::Unknown) { unsupported++; unsup["solver timeout (branch) @ " + repoLoc(s.t())]++; }
    if (r == Sat::Yes) { auto n = clone(s); addPC(*n, other); n->model = m; takeEdge(n->f(), v ? ef : et); enqueue(std::move(n)); addPC(s, taken); }
    takeEdge(s.f(), v ? et : ef); return true; }

  R checkCond(State& s, const Val& v, const std::string& msg) {
    checks++; checkMsgs[msg]++;
    if (!v.e) { if (v.c & 1) return R::Next; return violate(s, "property", msg); }
    symChecks++; E c = v.e; if (c->w != 1) c = mkNe(c, mkConst(0, c->w)); if (isC(c)) { if (c->c) return R::Next; return violate(s, "property", msg); }
    if (s.weak) return wCheck(s, c, msg);
    Model m; Sat r = checkSat(s.pc, mkNot(c), s.model, m);
    if (r == Sat::Yes) { report(s, "property", msg, &m); Model m2; Sat q = checkSat(s.pc, c, s.model, m2); if (q != Sat::Yes) return R::Dead; s.model = m2; addPC(s, c); return R::Next; }
    if (r == Sat::Unknown) { unsupported++; unsup["solver timeout (check): " + msg]++; } 
    return R::Next; }

  static Val binop(unsigned op, const Val& a, const Val& b, unsigned w, bool& div0) {
    if (!a.e && !b.e && w <= 64) { u64 x = a.c, y = b.c, r = 0; switch (op) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: if (!y) { div0 = true; return Val(0); } r = x / y; break; case Instruction::URem: if (!y) { div0 = true; return Val(0); } r = x % y; break;
      case Instruction::SDiv: { i64 p = sx(x, w), q = sx(y, w); if (!q) { div0 = true; return Val(0); } r = q == -1 ? (u64)(0 - (u64)p) : (u64)(p / q); break; } case Instruction::SRem: { i64 p = sx(x, w), q = sx(y, w); if (!q) { div0 = true; return Val(0); } r = q == -1 ? 0 : (u64)(p % q); break; }
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break; case Instruction::AShr: r = (u64)(sx(x, w) >> (y >= w ? w - 1 : y)); break; default: break; }
      return Val(r & mask(w)); }
    E x = toE(a, w), y = toE(b, w); switch (op) {
      case Instruction::Add: return Val(mkAdd(x, y)); case Instruction::Sub: return Val(mkSub(x, y)); case Instruction::Mul: return Val(mkMul(x, y)); case Instruction::UDiv: return Val(mkUDiv(x, y)); case Instruction::URem: return Val(mkURem(x, y)); case Instruction::SDiv: return Val(mkSDiv(x, y)); case Instruction::SRem: return Val(mkSRem(x, y));
      case Instruction::And: return Val(mkAnd(x, y)); case Instruction::Or: return Val(mkOr(x, y)); case Instruction::Xor: return Val(mkXor(x, y)); case Instruction::Shl: return Val(mkShl(x, y)); case Instruction::LShr: return Val(mkLShr(x, y)); case Instruction::AShr: return Val(mkAShr(x, y)); }
    return Val(0); }
  static Val icmp(unsigned p, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e && w <= 64) { u64 x = a.c, y = b.c; i64 p1 = sx(x, w), q = sx(y, w); bool r = false; switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = p1 < q; break; case CmpInst::ICMP_SLE: r = p1 <= q; break; case CmpInst::ICMP_SGT: r = p1 > q; break; case CmpInst::ICMP_SGE: r = p1 >= q; break; } return Val(r); }
    E x = toE(a, w), y = toE(b, w); switch (p) { case CmpInst::ICMP_EQ: return Val(mkEq(x, y)); case CmpInst::ICMP_NE: return Val(mkNe(x, y)); case CmpInst::ICMP_ULT: return Val(mkUlt(x, y)); case CmpInst::ICMP_ULE: return Val(mkUle(x, y)); case CmpInst::ICMP_UGT: return Val(mkUlt(y, x)); case CmpInst::ICMP_UGE: return Val(mkUle(y, x)); case CmpInst::ICMP_SLT: return Val(mkSlt(x, y)); case CmpInst::ICMP_SLE: return Val(mkSle(x, y)); case CmpInst::ICMP_SGT: return Val(mkSlt(y, x)); case CmpInst::ICMP_SGE: return Val(mkSle(y, x)); } return Val(0); }

  bool maybePreempt(State& s, const Ins& in) { // returns true if the state was switched
    if (s.weak || s.th.size() < 2 || opt.preempt == 0 || s.t().noPreempt) return false;
    if (s.preempts >= opt.preempt) return false;
    int n = s.th.size(); for (int j = 0; j < n; j++) if (j != s.cur && runnable(s, j)) { auto c = clone(s); c->t().noPreempt = true; switched(*c, j); c->preempts++; enqueue(std::move(c)); }
    return false; }

  // replace a 64-bit value that the path condition bounds by a zero-extended narrow one
  void narrow(State& s, Val& v) { if (!v.e || v.e->w != 64 || hiZeros(v.e) >= 32) return; for (unsigned k : {16u, 32u}) { Model m; Sat r = checkSat(s.pc, mkNot(mkUlt(v.e, mkConst(1ull << k, 64))), s.model, m); if (r == Sat::No) { v.e = mkZExt(mkExtract(v.e, 0, k), 64); return; } } }

  // a value the path condition determines becomes a constant
  void unique(State& s, Val& v) { u64 x = evalE(v.e, *s.model); Model m; if (v.e->w <= 64 && checkSat(s.pc, mkNe(v.e, mkConst(x, v.e->w)), s.model, m) == Sat::No) v = Val(x); }

  R step(State& s) {
    Frame& f = s.f(); const Ins& in = f.fn->code[f.pc]; s.steps++; instrs++; f.fn->steps++;
    switch (in.op) {
    case OP_BIN: { Val a = get(s, in.ops[0]), b = get(s, in.ops[1]); 
      if ((in.sub == Instruction::UDiv || in.sub == Instruction::SDiv || in.sub == Instruction::URem || in.sub == Instruction::SRem)) {
        if (b.e) { Model m; Sat r = checkSat(s.pc, mkEq(b.e, mkConst(0, in.w)), s.model, m); if (r == Sat::Yes) { report(s, "arithmetic", "division by zero", &m); E nz = mkNe(b.e, mkConst(0, in.w)); Model m2; if (checkSat(s.pc, nz, s.model, m2) != Sat::Yes) return R::Dead; s.model = m2; addPC(s, nz); } } }
      if (in.w == 64 && (a.e || b.e) && (in.sub == Instruction::UDiv || in.sub == Instruction::URem || (in.sub == Instruction::Mul && a.e && b.e))) { bool mul = in.sub == Instruction::Mul; if (!(mul && a.e && a.e->k == K_ADD)) narrow(s, a); if (!(mul && b.e && b.e->k == K_ADD)) narrow(s, b); }
      bool d0 = false; Val r = binop(in.sub, a, b, in.w, d0); if (d0) return violate(s, "arithmetic", "division by zero"); if (r.e && in.sub == Instruction::UDiv) unique(s, r); f.regs[in.dst] = r; f.pc++; return R::Next; }
    case OP_ICMP: { f.regs[in.dst] = icmp(in.sub, get(s, in.ops[0]), get(s, in.ops[1]), in.w); f.pc++; return R::Next; }
    case OP_SELECT: { Val c = get(s, in.ops[0]), a = get(s, in.ops[1]), b = get(s, in.ops[2]); if (!c.e) f.regs[in.dst] = c.c & 1 ? a : b; else f.regs[in.dst] = Val(mkIte(c.e, toE(a, in.w), toE(b, in.w))); f.pc++; return R::Next; }
    case OP_CAST: { Val a = get(s, in.ops[0]); u16 from = in.ops[0].w, to = in.w; Val r; if (!a.e && to <= 64 && from <= 64) { r = Val(in.sub && to > from ? (u64)sx(a.c, from) & mask(to) : a.c & mask(to)); } else { E e = toE(a, from); r = Val(to < from ? mkExtract(e, 0, to) : in.sub ? mkSExt(e, to) : mkZExt(e, to)); } f.regs[in.dst] = r; f.pc++; return R::Next; }
    case OP_COPY: { if (in.ops.size() == 1) f.regs[in.dst] = get(s, in.ops[0]); else { std::vector<Val> t; for (auto& o : in.ops) t.push_back(get(s, o)); for (size_t i = 0; i < t.size(); i++) f.regs[in.dst + i] = t[i]; } if (in.isInvoke) takeEdge(f, in.e0); else f.pc++; return R::Next; }
    case OP_GEP: { Val p = get(s, in.ops[0]); if (in.scales.empty() && !p.e) { f.regs[in.dst] = Val(p.c + in.k); f.pc++; return R::Next; }
      u64 c = in.k; E sym = nullptr; if (p.e) sym = p.e; else c += p.c;
      for (size_t i = 0; i < in.scales.size(); i++) { const Opnd& o = in.ops[i + 1]; Val x = get(s, o); if (!x.e) c += in.scales[i] * (u64)sx(x.c, o.w); else { E e = mkSExt(x.e, 64); if (e->w > 64) e = mkExtract(e, 0, 64); e = mkMul(e, mkConst(in.scales[i], 64)); sym = sym ? mkAdd(sym, e) : e; } }
      f.regs[in.dst] = sym ? Val(mkAdd(sym, mkConst(c, 64))) : Val(c); f.pc++; return R::Next; }
    case OP_LOAD: { if (in.ord && maybePreempt(s, in)) return R::Stay; if (!concretize(s, in.ops[0])) return unsupp(s, "wide address"); u64 a = get(s, in.ops[0]).c; R r; if (!access(s, a, in.k2, in.k, false, r, in.ord ? 1 : 0)) return r; if (in.ord) rAtomic(s, a, true, false, in.ord);
      Frame& g = s.f(); for (size_t i = 0; i < in.leaves.size(); i++) { Val v; if (s.weak) { if (!wLoad(s, a + in.leaves[i].off, in.leaves[i].w, in.ord, v, r)) return r; } else v = rawLoad(s, a + in.leaves[i].off, in.leaves[i].w); g.regs[in.dst + i] = v; } g.pc++; if (in.ord) s.t().ops++; return R::Next; }
    case OP_STORE: { if (in.ord && maybePreempt(s, in)) return R::Stay; if (!concretize(s, in.ops[0])) return unsupp(s, "wide address"); u64 a = get(s, in.ops[0]).c; R r; if (!access(s, a, in.k2, in.k, true, r, in.ord ? 1 : 0)) return r; if (in.ord) rAtomic(s, a, false, true, in.ord);
      for (size_t i = 0; i < in.leaves.size(); i++) if (s.weak) { if (!wStore(s, a + in.leaves[i].off, get(s, in.ops[i + 1]), in.leaves[i].w, in.ord, r)) return r; } else rawStore(s, a + in.leaves[i].off, get(s, in.ops[i + 1]), in.leaves[i].w); s.f().pc++; if (in.ord) s.t().ops++; return R::Next; }
    case OP_ALLOCA: { if (!concretize(s, in.ops[0])) return unsupp(s, "alloca"); u64 n = get(s, in.ops[0]).c; u64 a = alloc(s, in.k * n, in.k2, O_STACK); Frame& g = s.f(); g.allocas.push_back(a >> ID_SHIFT); g.regs[in.dst] = Val(a); g.pc++; return R::Next; }
    case OP_BR: takeEdge(f, in.e0); return R::Next;
    case OP_CONDBR: { Val c = get(s, in.ops[0]); if (!c.e) takeEdge(f, c.c & 1 ? in.e0 : in.e1); else branchSym(s, c.e, in.e0, in.e1); return R::Next; }
    case OP_SWITCH: { Val v = get(s, in.ops[0]); if (!v.e) { u32 t = in.e0; for (auto& c : in.cases) if (c.first == v.c) { t = c.second; break; } takeEdge(f, t); return R::Next; }
      E e = v.e; E rest = mkTrue(); std::vector<std::pair<E, u32>> alts; for (auto& c : in.cases) { E q = mkEq(e, mkConst(c.first, e->w)); alts.push_back({q, c.second}); rest = mkAnd(rest, mkNot(q)); } alts.push_back({rest, in.e0});
      std::vector<std::tuple<E, u32, Model>> ok; for (auto& al : alts) { Model m; Sat r = checkSat(s.pc, al.first, s.model, m); if (r == Sat::Unknown) { unsupported++; unsup["solver timeout (switch)"]++; } if (r == Sat::Yes) ok.push_back({al.first, al.second, m}); }
      if (ok.empty()) return R::Dead; for (size_t i = 1; i < ok.size(); i++) { auto n = clone(s); addPC(*n, std::get<0>(ok[i])); n->model = std::get<2>(ok[i]); takeEdge(n->f(), std::get<1>(ok[i])); enqueue(std::move(n)); }
      addPC(s, std::get<0>(ok[0])); s.model = std::get<2>(ok[0]); takeEdge(s.f(), std::get<1>(ok[0])); return R::Next; }
    case OP_RET: { std::vector<Val> rv; for (auto& o : in.ops) rv.push_back(get(s, o)); bool drop = f.dropRet; popFrame(s); if (s.t().stack.empty()) return threadFrameDone(s); Frame& c = s.f(); const Ins& ci = c.fn->code[c.pc]; if (!drop) for (int i = 0; i < ci.nret && i < (int)rv.size(); i++) c.regs[ci.dst + i] = rv[i]; advance(s, ci); return R::Next; }
    case OP_CALL: { Fn* callee = in.callee; size_t first = 0; if (!callee) { first = 1; if (!concretize(s, in.ops[0])) return unsupp(s, "callee"); u64 a = get(s, in.ops[0]).c; auto it = funcById.find(a); if (it == funcById.end()) return violate(s, "memory", a == 0 ? "call through a null function pointer" : "call through an invalid function pointer"); Function* F = it->second; 
        const Handler* h = handlerFor(F, *const_cast<CallBase*>(cast<CallBase>(in.I))); if (h) { std::vector<Val> args; for (size_t i = 1; i < in.ops.size(); i++) args.push_back(get(s, in.ops[i])); R r = (*h)(s, in, args); if (r == R::Next) advance(s, in); return r; }
        if (F->isDeclaration()) return unsupp(s, "external call " + demangle(F->getName().str())); callee = getFn(F); }
      std::vector<Val> args; args.reserve(in.ops.size()); size_t k = first; for (size_t i = 0; i < in.argLeaves.size(); i++) for (int j = 0; j < in.argLeaves[i]; j++, k++) { Val v = get(s, in.ops[k]); args.push_back(v); }
      if (s.t().stack.size() > 4000) return violate(s, "memory", "stack overflow (unbounded recursion)");
      bool anyBv = false; for (u64 b : in.byval) if (b) anyBv = true;
      std::vector<u32> tmp; if (anyBv) { size_t q = 0; for (size_t i = 0; i < in.argLeaves.size(); i++) { if (in.byval[i]) { u64 a = alloc(s, in.byval[i], 16, O_STACK); R r; u64 src = args[q].c; if (!access(s, src, in.byval[i], 1, false, r)) return r; rawCopy(s, a, src, in.byval[i]); args[q] = Val(a); tmp.push_back(a >> ID_SHIFT); } q += in.argLeaves[i]; } }
      pushFrame(s, callee, std::move(args)); for (u32 x : tmp) s.f().allocas.push_back(x); return R::Next; }
    case OP_ICALL: { for (auto& o : in.ops) (void)o; std::vector<Val> args; args.reserve(in.ops.size()); for (auto& o : in.ops) args.push_back(get(s, o)); R r = (*in.h)(s, in, args); if (r == R::Next) advance(s, in); return r; }
    case OP_LANDINGPAD: f.pc++; return R::Next;
    case OP_RESUME: { u64 e = get(s, in.ops[0]).c; // continue unwinding in the caller
      u64 exc = e; popFrame(s); if (s.t().stack.empty()) return violate(s, "terminate", "uncaught exception"); return unwind(s, exc); }
    case OP_UNREACHABLE: return violate(s, "undefined", "reached unreachable code (undefined behaviour)");
    case OP_CMPXCHG: { if (maybePreempt(s, in)) return R::Stay; if (!concretize(s, in.ops[0])) return unsupp(s, "addr"); u64 a = get(s, in.ops[0]).c; R r; if (!access(s, a, (in.w + 7) / 8, in.k, true, r, 1)) return r; if (s.weak) { r = wCas(s, in, a); if (r != R::Next) return r; } Val cur = rawLoad(s, a, in.w), cmp = get(s, in.ops[1]), nw = get(s, in.ops[2]); Val eq = icmp(CmpInst::ICMP_EQ, cur, cmp, in.w); s.t().ops++;
      int flagReg = in.dst + 1; if (!eq.e) { Frame& g = s.f(); g.regs[in.dst] = cur; g.regs[flagReg] = eq; rAtomic(s, a, true, eq.c, eq.c ? in.ord : in.ord2); if (eq.c) rawStore(s, a, nw, in.w); s.f().pc++; return R::Next; }
      rAtomic(s, a, true, true, in.ord); rawStore(s, a, Val(mkIte(eq.e, toE(nw, in.w), toE(cur, in.w))), in.w); s.f().regs[in.dst] = cur; s.f().regs[flagReg] = eq; s.f().pc++; return R::Next; }
    case OP_RMW: { if (maybePreempt(s, in)) return R::Stay; if (!concretize(s, in.ops[0])) return unsupp(s, "addr"); u64 a = get(s, in.ops[0]).c; R r; if (!access(s, a, (in.w + 7) / 8, in.k, true, r, 1)) return r; if (s.weak) { r = wRmw(s, in, a); if (r != R::Next) return r; } rAtomic(s, a, true, true, in.ord); Val cur = rawLoad(s, a, in.w), v = get(s, in.ops[1]), nv; if (!rmw(in.sub, cur, v, in.w, nv)) return unsupp(s, "atomicrmw kind"); s.t().ops++; rawStore(s, a, nv, in.w); s.f().regs[in.dst] = cur; s.f().pc++; return R::Next; }
    case OP_FENCE: if (s.weak && !in.sub) { R r; if (wLimit(s, r)) return r; int id = wNode(s, W_F); WI.n[id].ord = in.ord; wAdvance(s, id); } if (!in.sub) rFence(s, in.ord); s.f().pc++; return R::Next;
    case OP_FBIN: return fbin(s, in);
    case OP_UNSUPPORTED: { std::string t; raw_string_ostream os(t); os << *in.I; return unsupp(s, "instruction " + t.substr(0, 100)); }
    }
    return R::Dead; }
  static bool rmw(unsigned k, const Val& cur, const Val& v, unsigned w, Val& out) { bool d; switch (k) { case AtomicRMWInst::Xchg: out = v; return true; case AtomicRMWInst::Add: out = binop(Instruction::Add, cur, v, w, d); return true; case AtomicRMWInst::Sub: out = binop(Instruction::Sub, cur, v, w, d); return true; case AtomicRMWInst::And: out = binop(Instruction::And, cur, v, w, d); return true; case AtomicRMWInst::Or: out = binop(Instruction::Or, cur, v, w, d); return true; case AtomicRMWInst::Xor: out = binop(Instruction::Xor, cur, v, w, d); return true; 
    case AtomicRMWInst::Max: case AtomicRMWInst::Min: case AtomicRMWInst::UMax: case AtomicRMWInst::UMin: { unsigned p = k == AtomicRMWInst::Max ? CmpInst::ICMP_SGT : k == AtomicRMWInst::Min ? CmpInst::ICMP_SLT : k == AtomicRMWInst::UMax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT; Val c = icmp(p, cur, v, w); out = c.e ? Val(mkIte(c.e, toE(cur, w), toE(v, w))) : c.c ? cur : v; return true; } default: return false; } }
  R fbin(State& s, const Ins& in) { auto& f = s.f(); std::vector<Val> a; for (auto& o : in.ops) { a.push_back(get(s, o)); if (a.back().e) return unsupp(s, "symbolic floating point"); }
    auto D = [&](int i) { if (in.ops[i].w == 32) { float x; u32 t = a[i].c; memcpy(&x, &t, 4); return (double)x; } double x; memcpy(&x, &a[i].c, 8); return x; }; auto ret = [&](double x) { if (in.w == 32) { float y = x; u32 t; memcpy(&t, &y, 4); f.regs[in.dst] = Val(t); } else { u64 t; memcpy(&t, &x, 8); f.regs[in.dst] = Val(t); } };
    switch (in.sub) { case Instruction::FAdd: ret(D(0) + D(1)); break; case Instruction::FSub: ret(D(0) - D(1)); break; case Instruction::FMul: ret(D(0) * D(1)); break; case Instruction::FDiv: ret(D(0) / D(1)); break;
      case 200: { double x = D(0), y = D(1); bool r = false; switch (in.k & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y; break; default: r = true; } f.regs[in.dst] = Val(r); break; }
      case 100 + Instruction::UIToFP: ret((double)a[0].c); break; case 100 + Instruction::SIToFP: ret((double)sx(a[0].c, in.ops[0].w)); break; case 100 + Instruction::FPToUI: f.regs[in.dst] = Val((u64)D(0) & mask(in.w)); break; case 100 + Instruction::FPToSI: f.regs[in.dst] = Val((u64)(i64)D(0) & mask(in.w)); break; case 100 + Instruction::FPExt: case 100 + Instruction::FPTrunc: ret(D(0)); break; default: return unsupp(s, "floating point op"); }
    f.pc++; return R::Next; }

  R threadFrameDone(State& s) { // the current thread's stack is empty
    auto& t = s.t(); if (s.weak && (t.tid == 0 || t.tlsDtors.empty())) { wNode(s, W_END); if (t.tid == 0) for (auto& x : s.reached) wReached.insert(x); return R::Dead; }
    if (t.tid == 0 && !t.exiting) { s.phase++; if (s.phase < (int)phases.size()) { pushFrame(s, getFn(phases[s.phase]), {}); s.f().dropRet = true; return R::Next; } t.exiting = true; }
    if (t.tid == 0 && !opt.runAtexit) return R::Dead;  // done (normal)
    t.exiting = true;
    if (!t.tlsDtors.empty()) { auto d = t.tlsDtors.back(); t.tlsDtors.pop_back(); R r = callFn(s, d.first, {Val(d.second)}, true); if (r == R::Next) return threadFrameDone(s); return R::Next; }
    if (t.tid == 0 && !s.atexits.empty()) { auto d = s.atexits.back(); s.atexits.pop_back(); R r = callFn(s, d.first, {Val(d.second)}, true); if (r == R::Next) return threadFrameDone(s); return R::Next; }
    if (t.tid == 0) return R::Dead;
    t.st = T_DONE; return block(s) == R::Dead ? R::Dead : R::Next; }

  void finishPath(State& s, bool completed) {
    for (auto& r : s.reached) reach[r]++;
    if (samples.size() < 4 && !s.log.empty()) { std::vector<std::pair<std::string, u64>> v; for (auto& l : s.log) v.push_back({l.name, l.kind == 1 ? l.conc : evalE(l.e, *s.model)}); samples.push_back(v); } }
  void runState(std::unique_ptr<State> sp) {
    State& s = *sp; u64 lastCheck = 0; u64 lastQ = g_sstats.queries;
    while (true) {
      bool wasNP = s.t().noPreempt; int cur = s.cur;
      R r = step(s);
      if (r == R::Dead) { paths++; if (!s.weak) finishPath(s, true); return; }
      if (wasNP && s.cur == cur) s.t().noPreempt = false;
      if (s.steps - lastCheck > 20000 || g_sstats.queries != lastQ) { lastQ = g_sstats.queries; lastCheck = s.steps; if (s.steps > opt.maxSteps && s.weak) { truncated++; unsup["step bound of a thread"]++; return; } if (s.steps > opt.maxSteps) { truncated++; report(s, "steps", "path exceeds the step bound (possible non-termination)"); paths++; finishPath(s, false); return; } if (elapsed() > maxSecs()) { timeUp = true; truncated++; return; } } } }
