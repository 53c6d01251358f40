  // ---------- data races along an interleaving: happens-before clocks of the C++ memory model ----------
  // Kept from the start of the second thread on. Atomic operations, fences, semaphores, mutexes, guards of local statics, thread start and join
  // order accesses; two accesses of different threads to a byte, one of them a write and not both atomic, must be ordered.
  bool racing(State& s) { return !s.weak && opt.preempt > 0 && s.th.size() > 1; }
  static void vjoin(VC& a, const VC& b) { for (size_t i = 0; i < a.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
  RClock& clockOf(State& s, int t) { if ((int)s.rclk.size() <= t) { size_t o = s.rclk.size(); s.rclk.resize(t + 1); for (size_t i = o; i < s.rclk.size(); i++) s.rclk[i].vc[i % MAXRT] = 1; } return s.rclk[t]; }
  void rTick(State& s) { clockOf(s, s.cur).vc[s.cur % MAXRT]++; }
  void rSpawn(State& s, int child) { VC p = clockOf(s, s.cur).vc; auto& c = clockOf(s, child); vjoin(c.vc, p); c.vc[child % MAXRT] = 1; rTick(s); }
  void rJoin(State& s, int child) { VC c = clockOf(s, child).vc; vjoin(clockOf(s, s.cur).vc, c); }
  void rAcquire(State& s, u64 a) { auto it = s.rsync.find(a); if (it != s.rsync.end()) vjoin(clockOf(s, s.cur).vc, it->second); }
  void rRelease(State& s, u64 a, bool accumulate) { VC v = clockOf(s, s.cur).vc; auto& m = s.rsync[a]; if (accumulate) vjoin(m, v); else m = v; rTick(s); }
  static bool ordAcq(u8 o) { return o == 4 || o == 6 || o == 7; } static bool ordRel(u8 o) { return o >= 5; }
  void rAtomic(State& s, u64 a, bool rd, bool wr, u8 o) { if (!racing(s)) return; auto& c = clockOf(s, s.cur); VC from{}; auto it = s.rsync.find(a); if (it != s.rsync.end()) from = it->second; if (rd) { if (ordAcq(o)) vjoin(c.vc, from); else vjoin(c.pd, from); } if (wr) { VC out = ordRel(o) ? c.vc : c.rf; if (rd) vjoin(out, from); s.rsync[a] = out; } rTick(s); }
  void rFence(State& s, u8 o) { if (!racing(s)) return; auto& c = clockOf(s, s.cur); if (ordAcq(o)) vjoin(c.vc, c.pd); if (ordRel(o)) c.rf = c.vc; rTick(s); }
  bool rAccess(State& s, u64 addr, u64 n, bool wr, bool at, R& r) {
    auto& t = s.t(); if (t.quiet) return true; Obj* o = s.mem.get(addr >> ID_SHIFT); if (o->ro || o->kind == O_EXC) return true; u64 off = addr - o->base; auto& c = clockOf(s, s.cur); u8 me = s.cur;
    auto& sh = s.rsh[addr >> ID_SHIFT]; if (!sh) sh = Ref<RObj>(new RObj); RObj* w = sh.mut();
    while (n) { u64 pg = off >> 6; unsigned i = off & 63; u64 k = std::min<u64>(n, 64 - i); u64 m = (k == 64 ? ~0ull : ((1ull << k) - 1)) << i; auto& ref = w->pg[pg]; if (!ref) ref = Ref<RPage>(new RPage);
      for (auto& x : ref->r) if (x.tid != me && (x.mask & m) && (wr || x.wr) && !(at && x.at) && x.clk > c.vc[x.tid % MAXRT]) { r = violate(s, "race", std::string("data race: ") + (wr ? "write" : "read") + " unordered with another thread's " + (x.wr ? "write" : "read") + (getenv("COSYM_RACE") ? " obj " + std::string(o->name ? o->name : "") + " kind " + std::to_string(o->kind) + " off " + std::to_string(off) + " by t" + std::to_string(me) + " of t" + std::to_string(x.tid) + " clk " + std::to_string(x.clk) : "")); return false; }
      RPage* p = ref.mut(); u32 clk = c.vc[me % MAXRT]; bool put = false; for (auto& x : p->r) { if (x.tid == me && x.wr == wr && x.at == at && x.clk == clk && !put) { x.mask |= m; put = true; continue; } if (!(x.mask & m)) continue; if ((wr && !at) || (x.tid == me && (x.wr <= wr && x.at >= at))) x.mask &= ~m; }
      if (!put) p->r.push_back(RRec{m, clk, me, wr, at}); p->r.erase(std::remove_if(p->r.begin(), p->r.end(), [](const RRec& x) { return !x.mask; }), p->r.end());
      off += k; n -= k; }
    return true; }
