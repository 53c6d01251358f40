// C++20 memory model over event trees: sb, rf, mo, happens-before as vector clocks, coherence, RMW atomicity, the order S of seq_cst
// operations and fences (with the rules for fences), no out-of-thin-air (sb and rf acyclic), data races.
// Happens-before is encoded by lower bounds on clocks only, so every model has at least the required edges; more edges never help a violation.
#include "weak.hpp"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <functional>
#include <cstdlib>
#include <llvm/Support/AtomicOrdering.h>
namespace cosym {
z3::context& zctx(); z3::expr toZ(E e);
WStats g_wstats;
using AO = llvm::AtomicOrdering;
static bool acq(u8 o) { auto a = (AO)o; return a == AO::Acquire || a == AO::AcquireRelease || a == AO::SequentiallyConsistent; }
static bool rel(u8 o) { auto a = (AO)o; return a == AO::Release || a == AO::AcquireRelease || a == AO::SequentiallyConsistent; }
static bool sc(u8 o) { return (AO)o == AO::SequentiallyConsistent; }

Sat solveWeak(const WInstance& I, bool violation, WWitness& out, Assignment& base, unsigned timeoutMs) {
  auto t0 = std::chrono::steady_clock::now(); auto& c = zctx(); const auto& N = I.n; int n = N.size(), T = I.threads; std::vector<z3::expr> F; auto add = [&](const z3::expr& e) { F.push_back(e); };
  auto reads = [&](int i) { return N[i].type == W_R || N[i].type == W_U; }; auto writes = [&](int i) { return N[i].type == W_W || N[i].type == W_U; };
  auto isSC = [&](int i) { return N[i].ord && sc(N[i].ord) && (N[i].type == W_F || reads(i) || writes(i)); };
  // width of positions: total number of events of an execution
  std::vector<int> depth(T, 0), scd(T, 0); std::vector<int> scc(n, 0); for (int i = 0; i < n; i++) { depth[N[i].th] = std::max(depth[N[i].th], N[i].pos + 1); scc[i] = (N[i].parent >= 0 ? scc[N[i].parent] : 0) + isSC(i); scd[N[i].th] = std::max(scd[N[i].th], scc[i]); }
  int total = 2, scTotal = 2; for (int t = 0; t < T; t++) { total += depth[t]; scTotal += scd[t]; } unsigned B = 1; while ((1 << B) <= std::max(total, scTotal) + 1) B++;
  auto bv = [&](u64 v) { return c.bv_val((uint64_t)v, B); }; auto var = [&](const std::string& s, int i, int j = 0) { return c.bv_const((s + std::to_string(i) + "_" + std::to_string(j)).c_str(), B); };
  auto ge = [&](const z3::expr& a, const z3::expr& b) { return z3::uge(a, b); }; auto lt = [&](const z3::expr& a, const z3::expr& b) { return z3::ult(a, b); }; auto le = [&](const z3::expr& a, const z3::expr& b) { return z3::ule(a, b); };
  std::vector<z3::expr> A; for (int i = 0; i < n; i++) A.push_back(c.bool_const(("A" + std::to_string(i)).c_str()));
  auto one = c.bv_val(1, 1); for (E e : I.pc) add(toZ(e) == one);
  std::vector<std::vector<int>> kids(n); for (int i = 0; i < n; i++) if (N[i].parent >= 0) kids[N[i].parent].push_back(i);
  for (int i = 0; i < n; i++) { if (N[i].parent < 0) add(A[i]); else add(z3::implies(A[i], A[N[i].parent])); for (E e : N[i].pc) add(z3::implies(A[i], toZ(e) == one)); for (size_t x = 0; x < kids[i].size(); x++) for (size_t y = 0; y < x; y++) add(!A[kids[i][x]] || !A[kids[i][y]]); }
  // ancestry within a thread
  std::vector<std::vector<char>> anc(n, std::vector<char>(n, 0)); for (int i = 0; i < n; i++) for (int p = N[i].parent; p >= 0; p = N[p].parent) anc[i][p] = 1;
  auto compatible = [&](int a, int b) { return N[a].th != N[b].th || anc[a][b] || anc[b][a]; };
  // clocks: component u < T counts events of thread u, component T is the greatest S of a seq_cst fence in the past
  using Clk = std::vector<z3::expr>; Clk zero; for (int u = 0; u <= T; u++) zero.push_back(bv(0));
  std::vector<Clk> VC(n, Clk()), PEND(n, Clk()); std::vector<int> relF(n, -1); 
  auto raise = [&](const z3::expr& cond, const Clk& x, const Clk& y, int own) { for (int u = 0; u <= T; u++) { if (u == own) continue; if (y[u].is_numeral() && y[u].get_numeral_uint64() == 0) continue; add(z3::implies(cond, ge(x[u], y[u]))); } };
  for (int i = 0; i < n; i++) { auto& e = N[i]; int p = e.parent; if (p < 0) { VC[i] = zero; PEND[i] = zero; continue; }
    bool gains = (reads(i) && acq(e.ord)) || e.type == W_JOIN || (e.type == W_F && (acq(e.ord) || sc(e.ord)));
    relF[i] = e.type == W_F && rel(e.ord) ? i : relF[p];
    if (gains) { Clk v; for (int u = 0; u <= T; u++) v.push_back(u == e.th ? bv(0) : var("V", i, u)); VC[i] = v; raise(A[i], v, VC[p], e.th); } else VC[i] = VC[p];
    if (reads(i) && e.ord && !acq(e.ord)) { Clk v; for (int u = 0; u <= T; u++) v.push_back(var("P", i, u)); PEND[i] = v; raise(A[i], v, PEND[p], -1); } else PEND[i] = PEND[p];
    if (e.type == W_F && acq(e.ord)) raise(A[i], VC[i], PEND[p], e.th); }
  std::vector<z3::expr> S; for (int i = 0; i < n; i++) S.push_back(isSC(i) ? var("S", i) : bv(0));
  for (int i = 0; i < n; i++) if (N[i].type == W_F && sc(N[i].ord)) add(z3::implies(A[i], ge(VC[i][T], S[i])));
  auto at = [&](int i) { Clk v = VC[i]; v[N[i].th] = bv(N[i].pos); return v; };            // the clock of an event, itself included
  auto hb = [&](int a, int b) { return N[a].th == N[b].th ? c.bool_val((bool)anc[b][a]) : (N[a].parent < 0 ? c.bool_val(true) : ge(VC[b][N[a].th], bv(N[a].pos))); };
  // timestamps (no thin air), modification order
  std::vector<z3::expr> TS, MO, MR; std::map<u64, int> wcount; for (int i = 0; i < n; i++) if (writes(i)) wcount[N[i].loc]++;
  for (int i = 0; i < n; i++) { TS.push_back(N[i].parent < 0 ? bv(0) : var("T", i)); MO.push_back(writes(i) ? var("M", i) : bv(0)); MR.push_back(reads(i) ? var("R", i) : bv(0)); if (N[i].parent >= 0) { add(z3::implies(A[i], lt(TS[N[i].parent], TS[i]))); add(z3::ule(TS[i], bv(total))); } if (writes(i)) add(z3::implies(A[i], ge(MO[i], bv(1)) && le(MO[i], bv(std::min(total, wcount[N[i].loc]))))); }
  // release clocks of writes
  std::vector<Clk> RC(n, zero); for (int i = 0; i < n; i++) if (writes(i)) { Clk b = zero; if (N[i].ord && rel(N[i].ord)) b = at(i); else if (N[i].ord && relF[i] >= 0) b = at(relF[i]); if (N[i].type == W_U) { Clk v; for (int u = 0; u <= T; u++) v.push_back(var("C", i, u)); raise(A[i], v, b, -1); RC[i] = v; } else RC[i] = b; }
  // reads-from
  struct RF { int r, w; z3::expr v; }; std::vector<RF> rfs; std::vector<z3::expr> bad; std::vector<std::tuple<std::string, std::string, int, int, z3::expr>> claims; std::map<int, std::vector<int>> rfOf;
  std::map<u64, std::vector<int>> at_loc; for (int i = 0; i < n; i++) if (reads(i) || writes(i)) at_loc[N[i].loc].push_back(i);
  for (int r = 0; r < n; r++) if (reads(r)) { z3::expr_vector any(c); auto& L = I.locs.at(N[r].loc);
    auto cand = [&](int w) { z3::expr v = c.bool_const(("rf" + std::to_string(r) + "_" + std::to_string(w + 1)).c_str()); rfOf[r].push_back(rfs.size()); rfs.push_back({r, w, v}); any.push_back(v); return v; };
    if (L.hasInit && !(isC(N[r].rval) && isC(L.init) && N[r].rval->c != L.init->c)) { auto v = cand(-1); add(z3::implies(v, MR[r] == bv(0) && toZ(N[r].rval) == toZ(L.init))); }
    for (int w : at_loc[N[r].loc]) if (writes(w) && w != r && !anc[w][r] && compatible(w, r)) { if (!N[w].poison && isC(N[r].rval) && isC(N[w].wval) && N[r].rval->c != N[w].wval->c) continue;
        auto v = cand(w); add(z3::implies(v, A[w])); if (!N[w].poison) add(z3::implies(v, toZ(N[r].rval) == toZ(N[w].wval))); else if (violation) claims.push_back({"memory", "reads memory without a value (uninitialised or released)", r, w, v && A[r]});
        add(z3::implies(v, MR[r] == MO[w] && lt(TS[w], TS[r]))); z3::expr g = v && A[r]; if (N[r].ord && acq(N[r].ord)) raise(g, VC[r], RC[w], N[r].th); else if (N[r].ord) raise(g, PEND[r], RC[w], -1); if (N[r].type == W_U) raise(g, RC[r], RC[w], -1); }
    add(z3::implies(A[r], z3::mk_or(any))); if (N[r].type == W_U) add(z3::implies(A[r], MO[r] == MR[r] + bv(1))); }
  // joins
  for (int j = 0; j < n; j++) if (N[j].type == W_JOIN) { z3::expr_vector any(c); for (int e = 0; e < n; e++) if (N[e].type == W_END && N[e].th == N[j].joins) { any.push_back(A[e]); raise(A[j] && A[e], VC[j], at(e), N[j].th); add(z3::implies(A[j] && A[e], lt(TS[e], TS[j]))); } add(z3::implies(A[j], z3::mk_or(any))); }
  // coherence, modification order, races
  std::vector<std::pair<int, int>> races; bool anySC = false; for (int i = 0; i < n; i++) anySC |= isSC(i);
  std::vector<z3::expr> H; for (int i = 0; i < n; i++) H.push_back(anySC && (reads(i) || writes(i)) && N[i].ord ? var("H", i) : bv((1ull << B) - 1));
  for (auto& [loc, ev] : at_loc) for (int a : ev) for (int b : ev) { if (a == b || !compatible(a, b)) continue; z3::expr both = A[a] && A[b];
      if (a < b && writes(a) && writes(b)) add(z3::implies(both, MO[a] != MO[b]));
      if (!(N[a].th == N[b].th && !anc[b][a])) { z3::expr h = both && hb(a, b); z3::expr x = writes(a) ? MO[a] : MR[a]; add(z3::implies(h, reads(b) ? le(x, MR[b]) : lt(x, MO[b]))); }
      if (a < b && N[a].th != N[b].th && (!N[a].ord || !N[b].ord) && (writes(a) || writes(b)) && violation) claims.push_back({"race", "", a, b, both && !hb(a, b) && !hb(b, a)});
      if (anySC && N[a].ord && N[b].ord) { z3::expr eco = writes(a) ? (writes(b) ? lt(MO[a], MO[b]) : le(MO[a], MR[b])) : (writes(b) ? lt(MR[a], MO[b]) : lt(MR[a], MR[b])); z3::expr g = both && eco; z3::expr la = VC[a][T];
        auto zeroC = [&](const z3::expr& e) { return e.is_numeral() && e.get_numeral_uint64() == 0; };
        if (!zeroC(la)) { add(z3::implies(g, lt(la, H[b]))); if (isSC(b)) add(z3::implies(g, lt(la, S[b]))); } if (isSC(a)) { add(z3::implies(g, lt(S[a], H[b]))); if (isSC(b)) add(z3::implies(g, lt(S[a], S[b]))); } } }
  // the order S
  std::vector<int> scs; for (int i = 0; i < n; i++) if (isSC(i)) scs.push_back(i);
  for (int a : scs) { add(z3::implies(A[a], ge(S[a], bv(1)) && le(S[a], bv(scTotal)))); for (int b : scs) { if (a == b || !compatible(a, b)) continue; z3::expr both = A[a] && A[b]; if (a < b) add(z3::implies(both, S[a] != S[b]));
      if (anc[b][a]) add(z3::implies(both, lt(S[a], S[b]))); else if (N[a].th != N[b].th) { add(z3::implies(both && z3::ugt(VC[N[b].parent][N[a].th], bv(N[a].pos)), lt(S[a], S[b]))); if (N[a].type == W_F && N[b].type == W_F) add(z3::implies(both && hb(a, b), lt(S[a], S[b]))); } } }
  for (int y : scs) if (N[y].type == W_F) for (int b = 0; b < n; b++) if ((reads(b) || writes(b)) && N[b].ord && compatible(b, y) && !(N[b].th == N[y].th && !anc[y][b])) add(z3::implies(A[y] && A[b] && hb(b, y), le(H[b], S[y])));
  // goal
  if (violation) { for (int i = 0; i < n; i++) if (N[i].type == W_VIOL) claims.push_back({N[i].kind, N[i].msg, i, -1, A[i]}); if (claims.empty()) return Sat::No; z3::expr_vector g(c); for (auto& x : claims) g.push_back(std::get<4>(x)); add(z3::mk_or(g)); }
  else for (int t = 0; t < T; t++) { z3::expr_vector g(c); for (int i = 0; i < n; i++) if (N[i].type == W_END && N[i].th == t) g.push_back(A[i]); if (g.empty()) return Sat::No; add(z3::mk_or(g)); }
  g_wstats.nodes += n; for (int i = 0; i < n; i++) g_wstats.events += reads(i) || writes(i) || N[i].type == W_F; g_wstats.rfs += rfs.size(); g_wstats.clauses += F.size();
  z3::solver s = !getenv("COSYM_WPLAIN") ? (z3::tactic(c, "simplify") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat")).mk_solver() : z3::solver(c, "QF_BV"); z3::params p(c); p.set("timeout", timeoutMs); s.set(p); for (auto& f : F) s.add(f);
  if (const char* d = getenv("COSYM_WDUMP")) { static int k = 0; FILE* f = fopen((std::string(d) + "/w" + std::to_string(k++) + ".smt2").c_str(), "w"); if (f) { fputs(s.to_smt2().c_str(), f); fclose(f); } }
  z3::check_result r = z3::unknown; try { r = s.check(); } catch (z3::exception&) {}
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_wstats.secs += dt; g_sstats.secs += dt; g_sstats.queries++;
  if (r == z3::unsat) { g_sstats.unsat++; return Sat::No; } if (r == z3::unknown) { g_sstats.unknown++; return Sat::Unknown; } g_sstats.sat++;
  z3::model m = s.get_model(); auto B1 = [&](const z3::expr& e) { return m.eval(e, true).is_true(); }; auto U = [&](const z3::expr& e) { z3::expr v = m.eval(e, true); return v.is_numeral() ? (u64)v.get_numeral_uint64() : 0; };
  out.found = true; std::vector<int> act; for (int i = 0; i < n; i++) if (B1(A[i])) act.push_back(i); std::stable_sort(act.begin(), act.end(), [&](int a, int b) { u64 x = U(TS[a]), y = U(TS[b]); return x != y ? x < y : a < b; });
  std::map<int, int> idx; for (size_t k = 0; k < act.size(); k++) idx[act[k]] = k;
  for (int i : act) { auto& e = N[i]; WEvent w{i, e.th, e.pos, e.type, e.loc, e.bytes, e.ord, e.poison, 0, 0, -2, 0, 0, U(TS[i]), e.joins, e.localAtomics, e.where}; if (reads(i)) { w.rval = U(toZ(e.rval)); for (int k : rfOf[i]) if (B1(rfs[k].v)) w.rf = rfs[k].w < 0 ? -1 : idx[rfs[k].w]; } if (writes(i)) { w.mo = U(MO[i]); if (!e.poison) w.wval = U(toZ(e.wval)); } if (isSC(i)) w.S = U(S[i]); out.ev.push_back(w); }
  for (auto& [l, L] : I.locs) if (L.hasInit) out.init[l] = U(toZ(L.init));
  for (auto& x : claims) if (B1(std::get<4>(x))) { int a = std::get<2>(x), b = std::get<3>(x); out.kind = std::get<0>(x); out.msg = std::get<1>(x); out.a = idx[a]; out.b = b < 0 ? -1 : idx[b]; out.where = N[a].where; out.stack = N[a].stack; if (out.kind == "race") { auto d = [&](int i) { return std::string(writes(i) ? "write" : "read") + (N[i].ord ? " (atomic)" : "") + " at " + N[i].where; }; out.msg = "data race: " + d(a) + " and " + d(b); out.where = N[a].where; } break; }
  for (auto& sy : symtab()) { z3::expr v = m.eval(toZ(sy.e), false); if (v.is_numeral() && sy.w <= 64) { u32 id = &sy - &symtab()[0]; base.set(id, v.get_numeral_uint64()); } }
  return Sat::Yes; }
}
