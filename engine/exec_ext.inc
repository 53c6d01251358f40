  // ---------- external functions and intrinsics ----------
  std::unordered_map<const GlobalVariable*, Handler> tlsH;
  u64 tlsAddr(State& s, GlobalVariable* g, int tid) { u64 key = (u64)(uintptr_t)g; auto it = s.tls.find({key, tid}); if (it != s.tls.end()) return it->second; u64 a = newGlobal(s, *g); if (g->hasInitializer()) initGlobal(s, a, *g->getInitializer()); s.tls[{key, tid}] = a; return a; }
  Handler& tlsHandler(GlobalVariable* g) { auto& h = tlsH[g]; if (!h) h = [this, g](State& s, const Ins& in, std::vector<Val>&) { u64 a = tlsAddr(s, g, s.t().tid); s.f().regs[in.dst] = Val(a); return R::Next; }; return h; }
  void ret(State& s, const Ins& in, const Val& v, int i = 0) { if (in.dst >= 0 && in.nret > i) s.f().regs[in.dst + i] = v; }
  Opnd opAt(const Ins& in, int i) { return in.op == OP_CALL && !in.callee ? in.ops[i + 1] : in.ops[i]; }
  // concretise argument i, returning its value
  bool cz(State& s, const Ins& in, std::vector<Val>& a, int i) { if (!a[i].e) return true; Opnd o = opAt(in, i); if (!concretize(s, o)) return false; a[i] = get(s, o); return !a[i].e; }
  std::string cstr(State& s, u64 a) { std::string r; while (r.size() < 300) { R rr; if (!access(s, a, 1, 1, false, rr)) break; Val v = rawLoad(s, a, 8); if (v.e || !v.c) break; r += (char)v.c; a++; } return r; }

  E inputSym(State& s, const std::string& name, unsigned w) { u64 key = ((u64)w << 32) | (u64)s.symCount++; auto it = symCache.find(key); E e; if (it != symCache.end()) e = it->second; else { e = mkSym("in" + std::to_string(s.symCount - 1) + "_" + std::to_string(w), w); symCache[key] = e; } (void)name; return e; }

  const Handler* intrinsicHandler(Intrinsic::ID id, const std::string& nm) {
    auto mk = [&](Handler h) { dynHandlers.push_back(std::move(h)); return &dynHandlers.back(); };
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return mk([this, id](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0) || !cz(s, in, a, 1) || !cz(s, in, a, 2)) return unsupp(s, "memcpy"); R r; if (a[2].c == 0) return R::Next; auto* ci = cast<CallBase>(in.I); u64 da = ci->getParamAlign(0).valueOrOne().value(), sa = ci->getParamAlign(1).valueOrOne().value(); if (!access(s, a[0].c, a[2].c, da, true, r) || !access(s, a[1].c, a[2].c, sa, false, r)) return r; if (s.weak) { if (!wCopy(s, a[0].c, a[1].c, a[2].c, r)) return r; } else rawCopy(s, a[0].c, a[1].c, a[2].c); return R::Next; });
    case Intrinsic::memset: return mk([this](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0) || !cz(s, in, a, 2)) return unsupp(s, "memset"); R r; if (a[2].c == 0) return R::Next; if (!access(s, a[0].c, a[2].c, 1, true, r)) return r; for (u64 i = 0; i < a[2].c; i++) rawStore(s, a[0].c + i, a[1], 8); if (s.weak && !wFill(s, a[0].c, a[2].c, r)) return r; return R::Next; });
    case Intrinsic::trap: case Intrinsic::ubsantrap: return mk([this](State& s, const Ins&, std::vector<Val>&) { return violate(s, "undefined", "trap"); });
    case Intrinsic::expect: return mk([this](State& s, const Ins& in, std::vector<Val>& a) { ret(s, in, a[0]); return R::Next; });
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return mk([this](State& s, const Ins& in, std::vector<Val>& a) { ret(s, in, a[0]); return R::Next; });
    case Intrinsic::stacksave: case Intrinsic::stackrestore: return mk([this](State& s, const Ins& in, std::vector<Val>&) { ret(s, in, Val(0)); return R::Next; });
    case Intrinsic::is_constant: return mk([this](State& s, const Ins& in, std::vector<Val>&) { ret(s, in, Val(0)); return R::Next; });
    case Intrinsic::objectsize: return mk([this](State& s, const Ins& in, std::vector<Val>&) { ret(s, in, Val(~0ull)); return R::Next; });
    case Intrinsic::eh_typeid_for: return mk([this](State& s, const Ins& in, std::vector<Val>& a) { ret(s, in, Val(selOf(a[0].c))); return R::Next; });
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: return mk([this, id](State& s, const Ins& in, std::vector<Val>& a) { unsigned w = in.retW[0]; unsigned p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT; Val c = icmp(p, a[0], a[1], w); ret(s, in, c.e ? Val(mkIte(c.e, toE(a[0], w), toE(a[1], w))) : c.c ? a[0] : a[1]); return R::Next; });
    case Intrinsic::abs: return mk([this](State& s, const Ins& in, std::vector<Val>& a) { unsigned w = in.retW[0]; bool d; Val c = icmp(CmpInst::ICMP_SLT, a[0], Val(0), w); Val n = binop(Instruction::Sub, Val(0), a[0], w, d); ret(s, in, c.e ? Val(mkIte(c.e, toE(n, w), toE(a[0], w))) : c.c ? n : a[0]); return R::Next; });
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: return mk([this, id](State& s, const Ins& in, std::vector<Val>& a) { unsigned w = in.retW[0]; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow; bool add = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow; unsigned w2 = mul ? 2 * w : w + 1; E x = toE(a[0], w), y = toE(a[1], w); E X = sg ? mkSExt(x, w2) : mkZExt(x, w2), Y = sg ? mkSExt(y, w2) : mkZExt(y, w2); 
        E nar = mul ? mkMul(x, y) : add ? mkAdd(x, y) : mkSub(x, y); E ov;
        if (!sg && !mul) ov = add ? mkUlt(nar, x) : mkUlt(x, y);
        else if (!a[0].e && !a[1].e && w <= 64) { __int128 p = sg ? (__int128)sx(a[0].c, w) : (__int128)a[0].c, q = sg ? (__int128)sx(a[1].c, w) : (__int128)a[1].c; bool o; if (mul && !sg) { unsigned __int128 r = (unsigned __int128)a[0].c * a[1].c; o = (r >> w) != 0; } else { __int128 r = mul ? p * q : add ? p + q : p - q; o = r != (__int128)sx((u64)r & mask(w), w); } ov = mkConst(o, 1); }
        else { E wide = mul ? mkMul(X, Y) : add ? mkAdd(X, Y) : mkSub(X, Y); ov = mkNe(wide, sg ? mkSExt(nar, w2) : mkZExt(nar, w2)); }
        ret(s, in, Val(nar), 0); ret(s, in, Val(ov), 1); return R::Next; });
    case Intrinsic::usub_sat: return mk([this](State& s, const Ins& in, std::vector<Val>& a) { unsigned w = in.retW[0]; E x = toE(a[0], w), y = toE(a[1], w); ret(s, in, Val(mkIte(mkUlt(x, y), mkConst(0, w), mkSub(x, y)))); return R::Next; });
    case Intrinsic::uadd_sat: return mk([this](State& s, const Ins& in, std::vector<Val>& a) { unsigned w = in.retW[0]; E x = toE(a[0], w), y = toE(a[1], w), z = mkAdd(x, y); ret(s, in, Val(mkIte(mkUlt(z, x), mkConst(mask(w), w), z))); return R::Next; });
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: return mk([this, id](State& s, const Ins& in, std::vector<Val>& a) { unsigned w = in.retW[0]; if (!a[0].e) { u64 x = a[0].c, r = 0; if (id == Intrinsic::ctpop) r = __builtin_popcountll(x); else if (id == Intrinsic::cttz) r = x ? __builtin_ctzll(x) : w; else r = x ? w - 64 + __builtin_clzll(x) : w; ret(s, in, Val(r)); return R::Next; }
        E x = a[0].e, r; if (id == Intrinsic::ctpop) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(x, i, 1), w)); } else if (id == Intrinsic::cttz) { r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(i, w), r); } else { r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); } ret(s, in, Val(r)); return R::Next; });
    case Intrinsic::bswap: return mk([this](State& s, const Ins& in, std::vector<Val>& a) { unsigned w = in.retW[0]; E x = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } ret(s, in, Val(r)); return R::Next; });
    case Intrinsic::fshl: case Intrinsic::fshr: return mk([this, id](State& s, const Ins& in, std::vector<Val>& a) { unsigned w = in.retW[0]; if (w > 32 && (a[0].e || a[1].e || a[2].e) && a[2].e) return unsupp(s, "symbolic funnel shift"); if (a[2].e) { E sh = mkURem(a[2].e, mkConst(w, w)); E c = mkConcat(toE(a[0], w), toE(a[1], w)); E r = id == Intrinsic::fshl ? mkExtract(mkShl(c, mkZExt(sh, 2 * w)), w, w) : mkExtract(mkLShr(c, mkZExt(sh, 2 * w)), 0, w); ret(s, in, Val(r)); return R::Next; }
        u64 k = a[2].c % w; E c = mkConcat(toE(a[0], w), toE(a[1], w)); unsigned lo = id == Intrinsic::fshl ? w - k : k; ret(s, in, Val(mkExtract(c, lo, w))); return R::Next; });
    case Intrinsic::ptrmask: return mk([this](State& s, const Ins& in, std::vector<Val>& a) { bool d; ret(s, in, binop(Instruction::And, a[0], a[1], 64, d)); return R::Next; });
    default: if (nm.find("pause") != std::string::npos) return mk([this](State& s, const Ins& in, std::vector<Val>& a) { return R::Next; }); return nullptr; } }

  const Handler* handlerFor(Function* F, CallBase& cb) {
    std::string n = F->getName().str(); auto it = handlers.find(n); if (it != handlers.end()) return &it->second;
    StringRef sr(n);
    if (isStreamName(sr)) { bool sret = F->arg_size() > 0 && F->hasParamAttribute(0, Attribute::StructRet); if (!sret && cb.arg_size() > 0 && cb.paramHasAttr(0, Attribute::StructRet)) sret = true; 
      bool isStr = sr.contains("3str") && sret;
      handlers[n] = [this, isStr](State& s, const Ins& in, std::vector<Val>& a) { if (isStr) { u64 p = a[0].c; R r; if (!access(s, p, 32, 8, true, r)) return r; rawStore(s, p, Val(p + 16), 64); rawStore(s, p + 8, Val(0), 64); rawStore(s, p + 16, Val(0), 8); return R::Next; } if (in.nret && !a.empty()) ret(s, in, a[0]); return R::Next; };
      return &handlers[n]; }
    if (F->isDeclaration()) {
      if (sr.contains("_error") || sr.contains("9exception") || sr.contains("bad_")) { // std exception constructors/destructors
        if (sr.starts_with("_ZNSt") || sr.starts_with("_ZNKSt")) { handlers[n] = [this](State& s, const Ins& in, std::vector<Val>& a) { if (in.nret && !a.empty()) ret(s, in, a[0]); return R::Next; }; return &handlers[n]; } }
      if (sr.starts_with("_ZNSt12out_of_range") || sr.starts_with("_ZNSt16invalid_argument")) { handlers[n] = [](State&, const Ins&, std::vector<Val>&) { return R::Next; }; return &handlers[n]; }
      if (sr.starts_with("_ZSt") && sr.contains("__throw_")) { std::string ti; struct P { const char* k; const char* t; }; for (P p : {P{"out_of_range", "_ZTISt12out_of_range"}, P{"length_error", "_ZTISt12length_error"}, P{"bad_alloc", "_ZTISt9bad_alloc"}, P{"bad_array_new", "_ZTISt20bad_array_new_length"}, P{"logic_error", "_ZTISt11logic_error"}, P{"invalid_argument", "_ZTISt16invalid_argument"}, P{"bad_function_call", "_ZTISt17bad_function_call"}, P{"system_error", "_ZTISt12system_error"}, P{"bad_variant_access", "_ZTISt18bad_variant_access"}, P{"bad_optional", "_ZTISt19bad_optional_access"}, P{"runtime_error", "_ZTISt13runtime_error"}}) if (sr.contains(p.k)) { ti = p.t; break; }
        if (ti.empty()) ti = "_ZTISt9exception"; handlers[n] = [this, ti](State& s, const Ins&, std::vector<Val>&) { return throwNew(s, ti); }; return &handlers[n]; }
    }
    // semaphores and other blocking waits: yield points of the (fair) scheduler
    if (sr.contains("counting_semaphore") || sr.contains("__atomic_semaphore") || sr.contains("__platform_semaphore")) {
      // the counter is the first member; releasing and a timed or failed attempt give way to the next thread
      if (sr.contains("7release") || sr.contains("_M_release")) { handlers[n] = [this](State& s, const Ins& in, std::vector<Val>& a) { R r; if (s.weak) return unsupp(s, "semaphore among concurrent threads"); if (a[0].e || a[1].e) return unsupp(s, "semaphore"); if (!access(s, a[0].c, 4, 4, true, r, 2)) return r; rawStore(s, a[0].c, Val((rawLoad(s, a[0].c, 32).c + a[1].c) & 0xffffffff), 32); if (racing(s)) rRelease(s, a[0].c, true); advance(s, in); s.t().ops++; switchAway(s); return R::Stay; }; return &handlers[n]; }
      if (sr.contains("acquire")) { bool block_ = !sr.contains("try_acquire"); handlers[n] = [this, block_](State& s, const Ins& in, std::vector<Val>& a) { R r; if (s.weak) return unsupp(s, "semaphore among concurrent threads"); if (a[0].e) return unsupp(s, "semaphore"); if (!access(s, a[0].c, 4, 4, true, r, 2)) return r; u32 c = rawLoad(s, a[0].c, 32).c; if (!c && block_) { s.t().st = T_SEM; s.t().waitOn = a[0].c; return block(s); } if (c) { rawStore(s, a[0].c, Val((u64)(c - 1)), 32); if (racing(s)) rAcquire(s, a[0].c); } if (in.nret) ret(s, in, Val(c ? 1 : 0)); advance(s, in); s.t().ops++; switchAway(s); return R::Stay; }; return &handlers[n]; } }
    if (sr.contains("random_device")) { handlers[n] = [this](State& s, const Ins& in, std::vector<Val>&) { if (in.nret) ret(s, in, Val(1)); return R::Next; }; return &handlers[n]; }
    if (sr.contains("_ZNSt11this_thread") || n == "sched_yield") { handlers[n] = [this](State& s, const Ins& in, std::vector<Val>&) { if (in.nret) ret(s, in, Val(0)); advance(s, in); s.t().ops++; switchAway(s); return R::Stay; }; return &handlers[n]; }
    return nullptr; }

  void setupHandlers() {
    auto H = [&](const std::string& n, Handler h) { handlers[n] = std::move(h); };
    auto nop0 = [this](State& s, const Ins& in, std::vector<Val>&) { ret(s, in, Val(0)); return R::Next; };
    // --- harness interface ---
    H("cs_sym", [this](State& s, const Ins& in, std::vector<Val>& a) { std::string nm = cstr(s, a[0].c); unsigned bits = a[1].c; E e = inputSym(s, nm, bits); s.log.push_back({nm, e, 0, 0}); ret(s, in, Val(mkZExt(e, 64))); return R::Next; });
    H("cs_choice", [this](State& s, const Ins& in, std::vector<Val>& a) { std::string nm = cstr(s, a[0].c); if (!cz(s, in, a, 1)) return unsupp(s, "cs_choice"); u64 n = a[1].c; if (n == 0) return R::Dead; E e = inputSym(s, nm, 32); s.log.push_back({nm, e, 0, 0});
      addPC(s, mkUlt(e, mkConst(n, 32))); ret(s, in, n == 1 ? Val(0) : Val(mkZExt(e, 64))); return R::Next; });
    H("cs_assume", [this](State& s, const Ins& in, std::vector<Val>& a) { if (!a[0].e) { if (a[0].c & 1) return R::Next; assumeKilled++; return R::Dead; } E c = a[0].e; if (c->w != 1) c = mkNe(c, mkConst(0, c->w)); Model m; Sat r = checkSat(s.pc, c, s.model, m); if (r != Sat::Yes) { if (r == Sat::Unknown) { unsupported++; unsup["solver timeout (assume)"]++; } assumeKilled++; return R::Dead; } s.model = m; addPC(s, c); return R::Next; });
    H("cs_check", [this](State& s, const Ins& in, std::vector<Val>& a) { return checkCond(s, a[0], cstr(s, a[1].c)); });
    H("cs_reach", [this](State& s, const Ins& in, std::vector<Val>& a) { s.reached.insert(cstr(s, a[0].c)); return R::Next; });
    H("cs_concretize", [this](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0)) return unsupp(s, "concretize"); ret(s, in, a[0]); return R::Next; });
    H("cs_is_symbolic_run", [this](State& s, const Ins& in, std::vector<Val>&) { ret(s, in, Val(1)); return R::Next; });
    H("cs_access", [this](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0) || !cz(s, in, a, 1)) return unsupp(s, "cs_access"); R r; if (a[1].c && !access(s, a[0].c, a[1].c, 1, false, r)) return r; return R::Next; });
    H("cs_block_base", [this](State& s, const Ins& in, std::vector<Val>& a) { Obj* o = a[0].e ? nullptr : objAt(s, a[0].c); ret(s, in, Val(o ? o->base : 0)); return R::Next; });
    H("cs_block_size", [this](State& s, const Ins& in, std::vector<Val>& a) { Obj* o = a[0].e ? nullptr : objAt(s, a[0].c); ret(s, in, Val(o ? o->size : 0)); return R::Next; });
    H("cs_block_align", [this](State& s, const Ins& in, std::vector<Val>& a) { Obj* o = a[0].e ? nullptr : objAt(s, a[0].c); ret(s, in, Val(o ? o->align : 1)); return R::Next; });
    H("cs_heap_live", [this](State& s, const Ins& in, std::vector<Val>&) { ret(s, in, Val((u64)s.heapLive)); return R::Next; });
    H("cs_param", [this](State& s, const Ins& in, std::vector<Val>& a) { std::string n = cstr(s, a[0].c); auto it = opt.params.find(n); ret(s, in, it == opt.params.end() ? a[1] : Val(it->second)); return R::Next; });
    H("cs_stop", [](State&, const Ins&, std::vector<Val>&) { return R::Dead; });
    H("cs_go", [this](State& s, const Ins& in, std::vector<Val>&) { if (s.weak) return unsupp(s, "cs_go in a thread"); advance(s, in); return weakInstance(s); });
    H("cs_yield", [this](State& s, const Ins& in, std::vector<Val>&) { advance(s, in); s.t().ops++; switchAway(s); return R::Stay; });
    H("cs_debug", [this](State& s, const Ins& in, std::vector<Val>& a) { std::cerr << "[debug] " << cstr(s, a[0].c) << " = " << (a[1].e ? toStr(a[1].e) : std::to_string(a[1].c)) << "\n"; return R::Next; });
    // --- allocation ---
    auto newH = [this](ObjKind k, bool hasAlign) { return [this, k, hasAlign](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0) || (hasAlign && !cz(s, in, a, 1))) return unsupp(s, "symbolic allocation size"); if (a[0].c > (1ull << 31)) return throwNew(s, "_ZTISt9bad_alloc"); ret(s, in, Val(alloc(s, a[0].c, hasAlign ? std::max<u64>(a[1].c, 1) : 16, k))); return R::Next; }; };
    H("_Znwm", newH(O_HEAP, false)); H("_Znam", newH(O_HEAPARR, false)); H("_ZnwmSt11align_val_t", newH(O_HEAP, true)); H("_ZnamSt11align_val_t", newH(O_HEAPARR, true)); H("_ZnwmRKSt9nothrow_t", newH(O_HEAP, false)); H("_ZnamRKSt9nothrow_t", newH(O_HEAPARR, false)); 
    H("malloc", newH(O_MALLOC, false)); H("aligned_alloc", [this](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0) || !cz(s, in, a, 1)) return unsupp(s, "aligned_alloc"); ret(s, in, Val(alloc(s, a[1].c, a[0].c, O_MALLOC))); return R::Next; });
    H("calloc", [this](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0) || !cz(s, in, a, 1)) return unsupp(s, "calloc"); ret(s, in, Val(alloc(s, a[0].c * a[1].c, 16, O_MALLOC, true))); return R::Next; });
    auto delH = [this](ObjKind k) { return [this, k](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0)) return unsupp(s, "free"); R r; if (!freeObj(s, a[0].c, k, r)) return r; return R::Next; }; };
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) H(n, delH(O_HEAP));
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) H(n, delH(O_HEAPARR));
    H("free", delH(O_MALLOC));
    // --- libc memory ---
    H("memcpy", [this](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0) || !cz(s, in, a, 1) || !cz(s, in, a, 2)) return unsupp(s, "memcpy"); R r; if (a[2].c) { if (!access(s, a[0].c, a[2].c, 1, true, r) || !access(s, a[1].c, a[2].c, 1, false, r)) return r; if (s.weak) { if (!wCopy(s, a[0].c, a[1].c, a[2].c, r)) return r; } else rawCopy(s, a[0].c, a[1].c, a[2].c); } ret(s, in, a[0]); return R::Next; }); handlers["memmove"] = handlers["memcpy"];
    H("memset", [this](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0) || !cz(s, in, a, 2)) return unsupp(s, "memset"); R r; if (a[2].c) { if (!access(s, a[0].c, a[2].c, 1, true, r)) return r; Val b = a[1].e ? Val(mkExtract(a[1].e, 0, 8)) : Val(a[1].c & 255); for (u64 i = 0; i < a[2].c; i++) rawStore(s, a[0].c + i, b, 8); if (s.weak && !wFill(s, a[0].c, a[2].c, r)) return r; } ret(s, in, a[0]); return R::Next; });
    H("strlen", [this](State& s, const Ins& in, std::vector<Val>& a) { u64 p = a[0].c, n = 0; while (true) { R r; if (!access(s, p + n, 1, 1, false, r)) return r; Val v = rawLoad(s, p + n, 8); if (v.e) return unsupp(s, "strlen of symbolic string"); if (!v.c) break; n++; } ret(s, in, Val(n)); return R::Next; });
    H("memcmp", [this](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0) || !cz(s, in, a, 1) || !cz(s, in, a, 2)) return unsupp(s, "memcmp"); u64 n = a[2].c; R r; if (n && (!access(s, a[0].c, n, 1, false, r) || !access(s, a[1].c, n, 1, false, r))) return r; E res = mkConst(0, 32); for (u64 i = n; i-- > 0;) { E x = toE(rawLoad(s, a[0].c + i, 8), 8), y = toE(rawLoad(s, a[1].c + i, 8), 8); res = mkIte(mkEq(x, y), res, mkIte(mkUlt(x, y), mkConst(0xffffffff, 32), mkConst(1, 32))); } ret(s, in, Val(res)); return R::Next; }); handlers["bcmp"] = handlers["memcmp"];
    H("memchr", [this](State& s, const Ins& in, std::vector<Val>& a) { u64 n = a[2].c; R r; for (u64 i = 0; i < n; i++) { if (!access(s, a[0].c + i, 1, 1, false, r)) return r; Val v = rawLoad(s, a[0].c + i, 8); if (v.e) return unsupp(s, "memchr"); if (v.c == (a[1].c & 255)) { ret(s, in, Val(a[0].c + i)); return R::Next; } } ret(s, in, Val(0)); return R::Next; });
    // --- exceptions ---
    H("__cxa_allocate_exception", [this](State& s, const Ins& in, std::vector<Val>& a) { u64 p = alloc(s, a[0].c, 16, O_EXC, false, "exception"); s.exc[p] = ExcInfo{}; ret(s, in, Val(p)); return R::Next; });
    H("__cxa_free_exception", [this](State& s, const Ins&, std::vector<Val>& a) { s.exc.erase(a[0].c); s.mem.getW(a[0].c >> ID_SHIFT)->alive = false; return R::Next; });
    H("__cxa_throw", [this](State& s, const Ins&, std::vector<Val>& a) { auto& e = s.exc[a[0].c]; e.type = a[1].c; e.dtor = a[2].c; return unwind(s, a[0].c); });
    H("__cxa_begin_catch", [this](State& s, const Ins& in, std::vector<Val>& a) { auto& e = s.exc[a[0].c]; e.count++; e.rethrown = false; s.t().caught.push_back(a[0].c); ret(s, in, a[0]); return R::Next; });
    H("__cxa_get_exception_ptr", [this](State& s, const Ins& in, std::vector<Val>& a) { ret(s, in, a[0]); return R::Next; });
    H("__cxa_end_catch", [this](State& s, const Ins& in, std::vector<Val>&) { auto& c = s.t().caught; if (c.empty()) return R::Next; u64 x = c.back(); c.pop_back(); auto& e = s.exc[x]; e.count--; if (e.count > 0 || e.rethrown) return R::Next; u64 d = e.dtor; s.exc.erase(x); if (d) { R r = callFn(s, d, {Val(x)}, true); if (r != R::Next) return r; } return R::Next; });
    H("__cxa_rethrow", [this](State& s, const Ins&, std::vector<Val>&) { auto& c = s.t().caught; if (c.empty()) return violate(s, "terminate", "rethrow without an exception"); u64 x = c.back(); s.exc[x].rethrown = true; return unwind(s, x); });
    for (auto n : {"_ZSt9terminatev", "__clang_call_terminate"}) H(n, [this](State& s, const Ins&, std::vector<Val>& a) { std::string m = "std::terminate"; if (!a.empty() && s.exc.count(a[0].c)) m += " (exception " + tiName(s.exc[a[0].c].type) + " escapes a noexcept function)"; return violate(s, "terminate", m); });
    H("abort", [this](State& s, const Ins&, std::vector<Val>&) { return violate(s, "terminate", "abort"); });
    H("exit", [this](State& s, const Ins&, std::vector<Val>&) { return R::Dead; });
    H("__assert_fail", [this](State& s, const Ins&, std::vector<Val>& a) { return violate(s, "assert", "assertion failed: " + cstr(s, a[0].c)); });
    H("_ZSt21__glibcxx_assert_failPKciS0_S0_", [this](State& s, const Ins&, std::vector<Val>& a) { return violate(s, "assert", "libstdc++ assertion failed: " + (a.size() > 3 ? cstr(s, a[3].c) : std::string())); });
    H("__cxa_pure_virtual", [this](State& s, const Ins&, std::vector<Val>&) { return violate(s, "undefined", "pure virtual call"); });
    // --- statics / TLS ---
    H("__cxa_guard_acquire", [this](State& s, const Ins& in, std::vector<Val>& a) { R r; u64 g = a[0].c; if (!access(s, g, 8, 1, true, r, 2)) return r; Val v = rawLoad(s, g, 8); if (v.c == 1) { if (racing(s)) rAcquire(s, g); ret(s, in, Val(0)); return R::Next; }
      if (!s.weak) { auto it = s.mutexOwner.find(g); if (it != s.mutexOwner.end() && it->second >= 0) { if (it->second == s.cur) return violate(s, "deadlock", "initialisation of a local static depends on itself"); s.t().st = T_MUTEX; s.t().waitOn = g; return block(s); } s.mutexOwner[g] = s.cur; } ret(s, in, Val(1)); return R::Next; });
    H("__cxa_guard_release", [this](State& s, const Ins& in, std::vector<Val>& a) { rawStore(s, a[0].c, Val(1), 8); s.mutexOwner[a[0].c] = -1; if (racing(s)) rRelease(s, a[0].c, false); return R::Next; });
    H("__cxa_guard_abort", [this](State& s, const Ins& in, std::vector<Val>& a) { s.mutexOwner[a[0].c] = -1; return R::Next; });
    H("cs_quiet", [this](State& s, const Ins& in, std::vector<Val>& a) { s.t().quiet += a[0].c & 1 ? 1 : -1; return R::Next; });
    H("__cxa_atexit", [this](State& s, const Ins& in, std::vector<Val>& a) { s.atexits.push_back({a[0].c, a[1].c}); ret(s, in, Val(0)); return R::Next; });
    H("__cxa_thread_atexit", [this](State& s, const Ins& in, std::vector<Val>& a) { s.t().tlsDtors.push_back({a[0].c, a[1].c}); ret(s, in, Val(0)); return R::Next; }); handlers["__cxa_thread_atexit_impl"] = handlers["__cxa_thread_atexit"];
    // --- threads ---
    H("pthread_mutex_lock", [this](State& s, const Ins& in, std::vector<Val>& a) { if (s.weak) return unsupp(s, "mutex among concurrent threads"); u64 m = a[0].c; R r; if (!access(s, m, 1, 1, true, r, 2)) return r; if (maybePreempt(s, in)) return R::Stay; auto it = s.mutexOwner.find(m); if (it != s.mutexOwner.end() && it->second >= 0) { if (it->second == s.cur && rawLoad(s, m + 16, 32).c == 1) { rawStore(s, m + 4, Val((u64)(rawLoad(s, m + 4, 32).c + 1)), 32); ret(s, in, Val(0)); return R::Next; } if (it->second == s.cur) return violate(s, "deadlock", "mutex locked twice by one thread"); s.t().st = T_MUTEX; s.t().waitOn = m; return block(s); } s.mutexOwner[m] = s.cur; if (racing(s)) rAcquire(s, m); s.t().ops++; ret(s, in, Val(0)); return R::Next; });
    H("pthread_mutex_unlock", [this](State& s, const Ins& in, std::vector<Val>& a) { if (rawLoad(s, a[0].c + 16, 32).c == 1) if (u64 n = rawLoad(s, a[0].c + 4, 32).c) { rawStore(s, a[0].c + 4, Val(n - 1), 32); ret(s, in, Val(0)); return R::Next; } s.mutexOwner[a[0].c] = -1; if (racing(s)) rRelease(s, a[0].c, false); ret(s, in, Val(0)); return R::Next; });
    H("pthread_mutex_trylock", [this](State& s, const Ins& in, std::vector<Val>& a) { auto it = s.mutexOwner.find(a[0].c); if (it != s.mutexOwner.end() && it->second >= 0) { if (it->second == s.cur && rawLoad(s, a[0].c + 16, 32).c == 1) { rawStore(s, a[0].c + 4, Val((u64)(rawLoad(s, a[0].c + 4, 32).c + 1)), 32); ret(s, in, Val(0)); return R::Next; } ret(s, in, Val(16)); return R::Next; } s.mutexOwner[a[0].c] = s.cur; if (racing(s)) rAcquire(s, a[0].c); ret(s, in, Val(0)); return R::Next; });
    H("__pthread_key_create", nop0); H("pthread_create", nop0);
    H("_ZNSt6thread20hardware_concurrencyEv", [this](State& s, const Ins& in, std::vector<Val>&) { ret(s, in, Val(2)); return R::Next; });
    H("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", [this](State& s, const Ins& in, std::vector<Val>& a) { if (s.weak) return unsupp(s, "thread started by a concurrent thread"); // a[0]=this, a[1]=&unique_ptr
      u64 st = rawLoad(s, a[1].c, 64).c; rawStore(s, a[1].c, Val(0), 64); int tid = s.th.size(); rawStore(s, a[0].c, Val(tid + 1000), 64);
      u64 vt = rawLoad(s, st, 64).c; u64 fn = rawLoad(s, vt + 16, 64).c; Thread nt; nt.tid = tid; nt.statePtr = st; s.th.push_back(nt); if (racing(s)) rSpawn(s, tid); int cur = s.cur; s.cur = tid; R r = callFn(s, fn, {Val(st)}, true); s.cur = cur; if (r == R::Dead) return r; return R::Next; });
    H("_ZNSt6thread4joinEv", [this](State& s, const Ins& in, std::vector<Val>& a) { R r; if (!access(s, a[0].c, 8, 1, true, r)) return r; u64 id = rawLoad(s, a[0].c, 64).c; if (id < 1000 || id - 1000 >= s.th.size()) return violate(s, "terminate", "join of a thread that was not started"); int tid = id - 1000; if (s.weak) { int nd = wNode(s, W_JOIN); WI.n[nd].joins = tid; wAdvance(s, nd); s.wJoined |= 1u << tid; } else if (s.th[tid].st != T_DONE) { s.t().st = T_JOIN; s.t().waitOn = tid; return block(s); } if (racing(s)) rJoin(s, tid); rawStore(s, a[0].c, Val(0), 64);
      u64 st = s.th[tid].statePtr; if (st) { s.th[tid].statePtr = 0; u64 vt = rawLoad(s, st, 64).c; u64 fn = rawLoad(s, vt + 8, 64).c; R q = callFn(s, fn, {Val(st)}, true); if (q != R::Next) return q; } return R::Next; });
    H("_ZNSt6thread6_StateD2Ev", nop0); H("_ZNSt6thread6_StateD1Ev", nop0);
    H("_ZNSt6chrono3_V212steady_clock3nowEv", nop0); H("_ZNSt6chrono3_V212system_clock3nowEv", nop0); H("pthread_self", [this](State& s, const Ins& in, std::vector<Val>&) { ret(s, in, Val(s.cur + 1000)); return R::Next; });
    H("syscall", [this](State& s, const Ins& in, std::vector<Val>&) { ret(s, in, Val(0)); advance(s, in); s.t().ops++; switchAway(s); return R::Stay; });
    H("__errno_location", [this](State& s, const Ins& in, std::vector<Val>&) { ret(s, in, Val(alloc(s, 8, 8, O_EXC, true))); return R::Next; });
    // std::string char_traits etc. are executed from their own IR; nothing here
    H("printf", nop0); H("puts", nop0); H("fprintf", nop0); H("fflush", nop0);
    H("_ZNKSt9type_info7__equalERKS_", nop0);
    H("_ZSt11_Hash_bytesPKvmm", [this](State& s, const Ins& in, std::vector<Val>& a) { if (!cz(s, in, a, 0) || !cz(s, in, a, 1)) return unsupp(s, "hash_bytes"); u64 h = 1469598103934665603ull ^ a[2].c; for (u64 i = 0; i < a[1].c; i++) { R r; if (!access(s, a[0].c + i, 1, 1, false, r)) return r; Val v = rawLoad(s, a[0].c + i, 8); if (v.e) return unsupp(s, "hash of symbolic bytes"); h = (h ^ v.c) * 1099511628211ull; } ret(s, in, Val(h)); return R::Next; });
  }
