  // ---------- executions under the C++ memory model: event trees per thread (weak.hpp), decided by weak_enc.cpp ----------
  // From cs_go() on, every started thread is executed on its own. A load of a location that several threads use becomes a fresh symbol,
  // restricted to the values any thread may write there (least fixpoint); every access to such a location becomes an event.
  WInstance WI; std::map<u64, std::pair<u32, u32>> wTouch; std::set<u64> wShared; std::map<u64, std::vector<E>> wVals, wNew; std::map<u64, std::map<E, u32>> wDepth, wNewDepth; std::map<u64, u32> wBytes; std::map<std::tuple<int, u32, u64, u64>, u64> wIds; std::map<u64, Obj*> wObjs; std::map<u64, int> wObjOwner; u64 wNextId = 0; u32 wSymCount = 0; std::map<u32, std::vector<E>> wSymVals; std::map<u32, u64> wSymLoc; bool wMore = false; State* wBase = nullptr; std::set<std::string> wReached; std::map<u64, E> wInit; bool wFinal = false;
  void wTouchAt(State& s, u64 a, u64 n, bool wr) { u32 bit = 1u << s.cur; if (n > 4096) n = 4096; for (u64 i = 0; i < n; i++) { auto& t = wTouch[a + i]; if (wr) t.second |= bit; else t.first |= bit; } }
  bool wIsShared(u64 a, u64 n) { auto it = wShared.lower_bound(a); return it != wShared.end() && *it < a + n; }
  u64 wAlloc(State& s, Obj* o) { auto key = std::make_tuple(s.cur, s.wOrd++, o->size, o->align); auto it = wIds.find(key); u64 id = it != wIds.end() ? it->second : (wIds[key] = wNextId++); o->base = 0; s.mem.put(id, o); if (!wObjs.count(id)) { wObjs[id] = new Obj(*s.mem.get(id)); wObjOwner[id] = s.cur; wObjs[id]->segs.clear(); }
    if (o->kind != O_STACK && o->kind != O_TLS) { u64 b = s.mem.get(id)->base; wPoison(s, b, o->size); } return id; }
  Obj* wForeign(State& s, u64 id) { auto it = wObjs.find(id); if (it == wObjs.end()) return nullptr; auto* o = new Obj(*it->second); o->rc = 0; o->zeroed = true; s.mem.put(id, o); return s.mem.get(id); }
  int wNode(State& s, WType t) { WNode n; n.id = WI.n.size(); n.th = s.cur; n.parent = s.wnode; n.pos = s.wnode >= 0 ? WI.n[s.wnode].pos + 1 : 0; n.type = t; n.pc.assign(s.pc.begin() + s.wpc, s.pc.end()); n.localAtomics = s.wLocal; if (!s.th[s.cur].stack.empty()) n.where = repoLoc(s.th[s.cur]); WI.n.push_back(n); return n.id; }
  void wAdvance(State& s, int id) { s.wnode = id; s.wpc = s.pc.size(); s.wLocal = 0; }
  R wViolation(State& s, const std::string& kind, const std::string& msg) { int id = wNode(s, W_VIOL); auto& n = WI.n[id]; n.kind = kind; n.msg = msg; auto& t = s.t(); for (size_t i = t.stack.size(); i-- > 0 && n.stack.size() < 14;) n.stack.push_back(whereOf(t.stack[i])); return R::Dead; }
  bool wLocOk(State& s, u64 a, u32 bytes, R& r) { auto it = wBytes.find(a); if (it != wBytes.end()) { if (it->second == bytes) return true; r = unsupp(s, "shared location accessed with different sizes"); return false; }
    auto nx = wBytes.lower_bound(a); if ((nx != wBytes.end() && nx->first < a + bytes) || (nx != wBytes.begin() && std::prev(nx)->first + std::prev(nx)->second > a)) { r = unsupp(s, "overlapping accesses to a shared location"); return false; }
    wBytes[a] = bytes; wMore = true; Obj* o = wBase->mem.get(a >> ID_SHIFT); if (o && o->alive && a >= o->base && a + bytes <= o->base + o->size) { Val v = rawLoad(*wBase, a, bytes * 8); wInit[a] = toE(v, bytes * 8); wVals[a].push_back(wInit[a]); } return true; }
  bool wClosed(E e) { for (u32 x : e->syms->ids) if (wSymVals.count(x)) return false; return true; }
  // values thread s may write to loc; rd: what the same operation reads (read-modify-write). A value is remembered with the least number of
  // writes to the location it takes to get there: read-modify-writes follow what they read directly, so longer chains than there are writes do not exist.
  void wValues(State& s, u64 loc, E v, E rd) { auto& out = wNew[loc]; auto& dep = wDepth[loc]; auto depthOf = [&](E e) { auto it = dep.find(e); return it == dep.end() ? 0u : it->second; }; auto put = [&](E e, u32 d) { auto it = wNewDepth[loc].emplace(e, d); if (!it.second && it.first->second > d) it.first->second = d; for (E x : out) if (x == e) return; out.push_back(e); };
    if (!rd) { if (wClosed(v)) return put(v, 1); if (v->k == K_SYM) { auto it = wSymVals.find(v->c); if (it != wSymVals.end()) { for (E e : it->second) put(e, 1); return; } } }
    if (!rd) { u32 only = 0; int k = 0; for (u32 x : v->syms->ids) if (wSymVals.count(x)) { only = x; k++; } if (k == 1 && wSymLoc[only] == loc) rd = symtab()[only].e; }   // computed from an earlier value of the same location
    if (rd && wClosed(rd) && wClosed(v)) return put(v, depthOf(rd) + 1);
    if (rd && !wClosed(rd)) { E base = rd; while (base->k == K_EXTRACT) base = base->a; std::vector<E> cands; if (rd->k == K_SYM && wSymVals.count(rd->c)) cands = wSymVals[rd->c]; if (!cands.empty()) { for (E c : cands) { E eq = mkEq(rd, c); Model m; if (checkSat(s.pc, eq, s.model, m) != Sat::Yes) continue; State t(s); addPC(t, eq); t.model = m; std::vector<std::pair<u64, Model>> vals; if (wClosed(v)) { put(v, depthOf(c) + 1); continue; } if (v->w > 64 || !enumerate(t, v, vals, 64)) { truncated++; unsup["more values than the bound written to a shared location @ " + repoLoc(s.t())]++; } for (auto& p : vals) put(mkConst(p.first, v->w), depthOf(c) + 1); } return; } }
    std::vector<std::pair<u64, Model>> vals; if (v->w > 64 || !enumerate(s, v, vals, 64)) { truncated++; unsup["more values than the bound written to a shared location @ " + repoLoc(s.t())]++; } for (auto& p : vals) put(mkConst(p.first, v->w), 1); }
  bool wOnlyOwn(State& s, u64 a, u32 bytes) { u32 w = 0; for (u32 i = 0; i < bytes; i++) { auto it = wTouch.find(a + i); if (it != wTouch.end()) w |= it->second.second; } return (w & ~(1u << s.cur)) == 0; }
  // once every other thread is joined nothing is concurrent any more: the first read of a location settles its value
  bool wSolo(State& s) { return __builtin_popcount(s.wJoined) == WI.threads - 1; }
  static bool scOrd(u8 o) { return o == (u8)AtomicOrdering::SequentiallyConsistent; }
  // the value a load of a shared location may return
  bool wCandidate(State& s, u64 a, u32 bytes, Val& out, R& r) {
    if (wOnlyOwn(s, a, bytes)) { auto it = s.wLast.find(a); if (it != s.wLast.end()) { out = it->second ? Val(it->second) : Val(0); return true; } auto in = wInit.find(a); if (in != wInit.end()) { out = Val(in->second); return true; } }
    auto it = wVals.find(a); if (it == wVals.end() || it->second.empty()) { if (wFinal) { r = unsupp(s, "read of a location no thread gives a value"); } else r = R::Dead; return false; }
    if (it->second.size() == 1) { out = Val(it->second[0]); return true; }
    u64 key = (1ull << 41) | ((u64)bytes << 32) | wSymCount++; auto& sy = symCache[key]; if (!sy) sy = mkSym("w" + std::to_string(wSymCount - 1) + "_" + std::to_string(bytes), bytes * 8); wSymVals[sy->c] = it->second; wSymLoc[sy->c] = a; { std::vector<u64> d; for (E v : it->second) if (isC(v)) d.push_back(v->c); if (d.size() == it->second.size()) g_domains[sy->c] = d; else g_domains.erase(sy->c); } E any = mkFalse(); for (E v : it->second) any = mkOr(any, mkEq(sy, v));
    Model m; Sat q = checkSat(s.pc, any, s.model, m); if (q != Sat::Yes) { if (q == Sat::Unknown) { unsupported++; unsup["solver timeout (shared load)"]++; } r = R::Dead; return false; } s.model = m; addPC(s, any); out = Val(sy); return true; }
  bool wLimit(State& s, R& r) { if (s.wnode >= 0 && WI.n[s.wnode].pos > 100) { truncated++; unsup["more than 100 events in a thread"]++; r = R::Dead; return true; } if (WI.n.size() > 6000) { truncated++; unsup["more than 6000 events in an instance"]++; r = R::Dead; return true; } return false; }
  bool wLoad(State& s, u64 a, unsigned w, u8 ord, Val& out, R& r) { u32 bytes = (w + 7) / 8; 
    if (!wIsShared(a, bytes)) { auto ow = wObjOwner.find(a >> ID_SHIFT); if (ow != wObjOwner.end() && ow->second != s.cur) { if (wFinal) r = unsupp(s, "read of memory another thread allocated and did not write"); else { wMore = true; r = R::Dead; } return false; } if (ord) s.wLocal++; out = rawLoad(s, a, w); return true; }
    if (!wLocOk(s, a, bytes, r) || wLimit(s, r)) return false; bool solo = wSolo(s); if (solo && s.wKnown.count(a)) { if (ord) s.wLocal++; out = rawLoad(s, a, w); return true; } bool own = wOnlyOwn(s, a, bytes); if (!wCandidate(s, a, bytes, out, r)) return false; Val full = out; if (out.e && out.e->w > w) out = Val(mkExtract(out.e, 0, w)); else if (!out.e) out.c &= mask(w);
    if (solo) { rawStore(s, a, full, bytes * 8); s.wKnown.insert(a); }
    if (own && !scOrd(ord) && !s.wDead.count(a)) { if (ord) s.wLocal++; return true; }
    int id = wNode(s, W_R); auto& n = WI.n[id]; n.loc = a; n.bytes = bytes; n.ord = ord; n.rval = toE(full, bytes * 8); wAdvance(s, id); return true; }
  bool wWrite(State& s, u64 a, const Val& v, unsigned w, u8 ord, R& r, bool poison = false) { u32 bytes = (w + 7) / 8; if (!wLocOk(s, a, bytes, r) || wLimit(s, r)) return false; if (wSolo(s)) { if (ord) s.wLocal++; s.wKnown.insert(a); return true; } E e = toE(v, w); if (w < bytes * 8) e = mkZExt(e, bytes * 8);
    if (!poison) { wValues(s, a, e, nullptr); s.wLast[a] = e; s.wDead.erase(a); } else { s.wLast.erase(a); s.wDead.insert(a); } int id = wNode(s, W_W); auto& n = WI.n[id]; n.loc = a; n.bytes = bytes; n.ord = ord; n.wval = e; n.poison = poison; wAdvance(s, id); return true; }
  bool wStore(State& s, u64 a, const Val& v, unsigned w, u8 ord, R& r) { u32 bytes = (w + 7) / 8; if (!wIsShared(a, bytes)) { if (ord) s.wLocal++; rawStore(s, a, v, w); return true; } rawStore(s, a, v, w); return wWrite(s, a, v, w, ord, r); }
  void wPoison(State& s, u64 a, u64 n) { R r; std::vector<std::pair<u64, u32>> ls; for (auto it = wBytes.lower_bound(a); it != wBytes.end() && it->first < a + n; ++it) if (wIsShared(it->first, it->second)) ls.push_back(*it); if (wObjOwner.count(a >> ID_SHIFT) || true) wTouchAt(s, a, std::min<u64>(n, 4096), true); for (auto& l : ls) wWrite(s, l.first, Val(0), l.second * 8, 0, r, true); }
  bool wCopy(State& s, u64 d, u64 src, u64 n, R& r) { if (!wIsShared(d, n) && !wIsShared(src, n)) { rawCopy(s, d, src, n); return true; } std::vector<std::pair<u64, u32>> sl, dl; for (auto it = wBytes.lower_bound(src); it != wBytes.end() && it->first < src + n; ++it) if (wIsShared(it->first, it->second)) sl.push_back(*it);
    std::vector<Val> got; for (auto& l : sl) { Val v; if (!wLoad(s, l.first, l.second * 8, 0, v, r)) return false; got.push_back(v); } rawCopy(s, d, src, n); for (size_t i = 0; i < sl.size(); i++) rawStore(s, d + (sl[i].first - src), got[i], sl[i].second * 8);
    for (auto it = wBytes.lower_bound(d); it != wBytes.end() && it->first < d + n; ++it) if (wIsShared(it->first, it->second)) dl.push_back(*it); for (auto& l : dl) { Val v = rawLoad(s, l.first, l.second * 8); if (!wWrite(s, l.first, v, l.second * 8, 0, r)) return false; } return true; }
  bool wFill(State& s, u64 d, u64 n, R& r) { std::vector<std::pair<u64, u32>> dl; for (auto it = wBytes.lower_bound(d); it != wBytes.end() && it->first < d + n; ++it) if (wIsShared(it->first, it->second)) dl.push_back(*it); for (auto& l : dl) { Val v = rawLoad(s, l.first, l.second * 8); if (!wWrite(s, l.first, v, l.second * 8, 0, r)) return false; } return true; }
  R wRmw(State& s, const Ins& in, u64 a) { R r; u32 bytes = (in.w + 7) / 8; if (!wIsShared(a, bytes)) { s.wLocal++; return R::Next; } if (!wLocOk(s, a, bytes, r) || wLimit(s, r)) return r; if (wSolo(s)) { Val x; if (!wLoad(s, a, in.w, (u8)AtomicOrdering::Monotonic, x, r)) return r; return R::Next; } Val cur, nv; if (!wCandidate(s, a, bytes, cur, r)) return r; if (!rmw(in.sub, cur, get(s, in.ops[1]), in.w, nv)) return unsupp(s, "atomicrmw kind"); E e = toE(nv, in.w); wValues(s, a, e, toE(cur, in.w)); s.wLast[a] = e; s.wDead.erase(a); rawStore(s, a, nv, in.w);
    int id = wNode(s, W_U); auto& n = WI.n[id]; n.loc = a; n.bytes = bytes; n.ord = in.ord; n.rval = toE(cur, in.w); n.wval = e; wAdvance(s, id); s.f().regs[in.dst] = cur; s.f().pc++; return R::Stay; }
  R wCas(State& s, const Ins& in, u64 a) { R r; u32 bytes = (in.w + 7) / 8; if (!wIsShared(a, bytes)) { s.wLocal++; return R::Next; } if (!wLocOk(s, a, bytes, r) || wLimit(s, r)) return r; if (wSolo(s)) { Val x; if (!wLoad(s, a, in.w, (u8)AtomicOrdering::Monotonic, x, r)) return r; return R::Next; } Val cur; if (!wCandidate(s, a, bytes, cur, r)) return r; Val cmp = get(s, in.ops[1]), nw = get(s, in.ops[2]); E eq = toE(icmp(CmpInst::ICMP_EQ, cur, cmp, in.w), 1);
    auto apply = [&](State& x, bool ok) { E e = toE(nw, in.w); int id; if (ok) { wValues(x, a, e, toE(cur, in.w)); x.wLast[a] = e; x.wDead.erase(a); rawStore(x, a, nw, in.w); id = wNode(x, W_U); } else id = wNode(x, W_R); auto& n = WI.n[id]; n.loc = a; n.bytes = bytes; n.ord = ok ? in.ord : in.ord2; n.rval = toE(cur, in.w); if (ok) n.wval = e; wAdvance(x, id); x.f().regs[in.dst] = cur; x.f().regs[in.dst + 1] = Val(ok ? 1 : 0); x.f().pc++; };
    E no = in.sub ? mkTrue() : mkNot(eq); Model my, mn; Sat y = checkSat(s.pc, eq, s.model, my), q = checkSat(s.pc, no, s.model, mn); if (y == Sat::Unknown || q == Sat::Unknown) { unsupported++; unsup["solver timeout (compare exchange)"]++; }
    if (y == Sat::Yes && q == Sat::Yes) { auto n = clone(s); addPC(*n, no); n->model = mn; apply(*n, false); enqueue(std::move(n)); addPC(s, eq); s.model = my; apply(s, true); return R::Stay; } if (y == Sat::Yes) { addPC(s, eq); s.model = my; apply(s, true); return R::Stay; } if (q == Sat::Yes) { addPC(s, no); s.model = mn; apply(s, false); return R::Stay; } return R::Dead; }
  R wCheck(State& s, E c, const std::string& msg) { Model m; Sat q = checkSat(s.pc, mkNot(c), s.model, m); if (q == Sat::Unknown) { unsupported++; unsup["solver timeout (check): " + msg]++; return R::Next; } if (q == Sat::No) return R::Next;
    E neg = mkNot(c); wViolation(s, "property", msg); WI.n.back().pc.push_back(neg); Model m2; if (checkSat(s.pc, c, s.model, m2) != Sat::Yes) return R::Dead; s.model = m2; addPC(s, c); return R::Next; }
  R weakInstance(State& s0) {
    int T = s0.th.size(); wTouch.clear(); wShared.clear(); wVals.clear(); wNew.clear(); wDepth.clear(); wBytes.clear(); wIds.clear(); for (auto& p : wObjs) delete p.second; wObjs.clear(); wObjOwner.clear(); wSymVals.clear(); wInit.clear(); wReached.clear(); wBase = &s0; wNextId = s0.mem.next + 16; wFinal = false; g_wstats.instances++;
    std::vector<std::unique_ptr<State>> saved; saved.swap(work); u64 rounds = 0; bool gaveUp = false; 
    u64 k1 = truncated, k2 = unsupported, k3 = checks, k4 = symChecks; auto k5 = unsup; auto k6 = checkMsgs;
    while (true) { rounds++; g_wstats.rounds++; truncated = k1; unsupported = k2; checks = k3; symChecks = k4; unsup = k5; checkMsgs = k6; WI = WInstance{}; WI.threads = T; wNew.clear(); wNewDepth.clear(); wSymCount = 0; wMore = false;
      for (int t = 0; t < T; t++) { auto x = std::make_unique<State>(s0); x->weak = true; x->cur = t; for (auto& th : x->th) th.noPreempt = true; x->wnode = -1; x->wpc = x->pc.size(); int root = wNode(*x, W_ROOT); wAdvance(*x, root); work.push_back(std::move(x));
        while (!work.empty()) { auto y = std::move(work.back()); work.pop_back(); runState(std::move(y)); if (elapsed() > maxSecs()) { timeUp = true; truncated++; gaveUp = true; work.clear(); } } }
      std::set<u64> sh; for (auto& [a, m] : wTouch) if (m.second && __builtin_popcount(m.first | m.second) >= 2) sh.insert(a); bool changed = wMore; if (sh != wShared) { wShared = sh; changed = true; }
      std::map<std::pair<int, u64>, u32> most; { std::vector<std::map<u64, u32>> cnt(WI.n.size()); for (auto& n : WI.n) { if (n.parent >= 0) cnt[n.id] = cnt[n.parent]; if (n.type == W_W || n.type == W_U) { u32 c = ++cnt[n.id][n.loc]; auto& m = most[{n.th, n.loc}]; m = std::max(m, c); } } } std::map<u64, u32> writes; for (auto& [k, c] : most) writes[k.second] += c;
      for (auto& [l, vs] : wNew) { auto& cur = wVals[l]; auto& dep = wDepth[l]; for (E e : vs) { u32 d = wNewDepth[l][e]; if (d > writes[l]) continue; auto it = dep.find(e); if (std::find(cur.begin(), cur.end(), e) == cur.end()) { cur.push_back(e); dep[e] = d; changed = true; } else if (it != dep.end() && it->second > d) { it->second = d; changed = true; } } }
      if (gaveUp) break; if (!changed) { if (wFinal) break; wFinal = true; continue; } wFinal = false; if (rounds > 60) { truncated++; unsup["values of shared locations did not settle"]++; break; } }
    saved.swap(work); if (gaveUp) return R::Dead;
    WI.pc = s0.pc; for (auto& [a, b] : wBytes) { WLoc L; L.bytes = b; auto it = wInit.find(a); if (it != wInit.end()) { L.hasInit = true; L.init = it->second; } WI.locs[a] = L; }
    if (getenv("COSYM_WTREE")) for (auto& n : WI.n) { std::cerr << n.id << " t" << n.th << " p" << n.parent << " " << "?RWUFJEV"[n.type] << " loc " << std::hex << n.loc << std::dec << " ord " << (int)n.ord << (n.poison ? " poison" : "") << " r " << (n.rval ? toStr(n.rval) : "") << " w " << (n.wval ? toStr(n.wval) : "") << " " << n.msg << " " << n.where << " pc:"; for (E e : n.pc) std::cerr << " " << toStr(e); std::cerr << "\n"; }
    unsigned lim = g_solverTimeoutMs * 10; double left = maxSecs() - elapsed(); if (left < 1) left = 1; if (left * 1000 < lim) lim = left * 1000;
    WWitness w; Assignment base = *s0.model; Sat q = solveWeak(WI, true, w, base, lim); if (q == Sat::Unknown) { unsupported++; unsup["solver timeout (executions)"]++; }
    if (q == Sat::Yes) reportWeak(s0, w, base);
    WWitness w2; Assignment b2 = *s0.model; Sat e = solveWeak(WI, false, w2, b2, lim); if (e == Sat::Yes) { g_wstats.endable++; for (auto& x : wReached) reach[x]++; if (samples.size() < 4) { std::vector<std::pair<std::string, u64>> v; for (auto& l : s0.log) v.push_back({l.name, l.kind == 1 ? l.conc : evalE(l.e, b2)}); samples.push_back(v); } } 
    return R::Dead; }
  void reportWeak(State& s, const WWitness& w, const Assignment& base) { violTotal++; std::string key = w.kind + "|" + w.msg + "|" + w.where; if (!violKeys.insert(key).second || (int)viols.size() >= opt.maxViol) return; Violation v; v.kind = w.kind; v.msg = w.msg; v.where = w.where; v.stack = w.stack; for (auto& l : s.log) { v.inputs.push_back({l.name, l.kind == 1 ? l.conc : evalE(l.e, base)}); v.kinds.push_back(l.kind); }
    std::ostringstream o; o << "{\"threads\":" << WI.threads << ",\"a\":" << w.a << ",\"b\":" << w.b << ",\"init\":{"; bool f = true; for (auto& p : w.init) { if (!f) o << ","; f = false; o << "\"" << p.first << "\":" << p.second; } o << "},\"events\":["; f = true; for (auto& e : w.ev) { if (!f) o << ","; f = false; o << "{\"th\":" << e.th << ",\"pos\":" << e.pos << ",\"type\":\"" << "?RWUFJEV"[e.type] << "\",\"loc\":" << e.loc << ",\"bytes\":" << e.bytes << ",\"ord\":" << (int)e.ord << ",\"poison\":" << (e.poison ? 1 : 0) << ",\"rval\":" << e.rval << ",\"wval\":" << e.wval << ",\"rf\":" << e.rf << ",\"mo\":" << e.mo << ",\"S\":" << e.S << ",\"joins\":" << e.joins << ",\"local\":" << e.local << ",\"where\":" << jq(e.where) << "}"; } o << "]}"; v.witness = o.str(); viols.push_back(v); found(); if (onReport) onReport(); }
  static std::string jq(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c >= 32) r += c; } return r + "\""; }
