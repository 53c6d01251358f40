#include "expr.hpp"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <optional>
#include <unistd.h>
namespace cosym {
std::unordered_map<u32, std::vector<u64>> g_domains;
SolverStats g_sstats; unsigned g_solverTimeoutMs = 30000; std::chrono::steady_clock::time_point g_deadline = std::chrono::steady_clock::time_point::max();
static z3::context& ctx() { static z3::context c; return c; }
static std::unordered_map<E, z3::expr>& zc() { static std::unordered_map<E, z3::expr> m; return m; }

z3::context& zctx() { return ctx(); }
z3::expr toZ(E e) {
  auto& cache = zc(); auto it = cache.find(e); if (it != cache.end()) return it->second;
  auto& c = ctx(); z3::expr r(c);
  auto b1 = [&](z3::expr p) { return z3::ite(p, c.bv_val(1, 1), c.bv_val(0, 1)); };
  switch (e->k) {
  case K_CONST: r = c.bv_val((uint64_t)e->c, e->w); break;
  case K_SYM: r = c.bv_const(("s" + std::to_string(e->c)).c_str(), e->w); break;
  case K_ADD: r = toZ(e->a) + toZ(e->b); break;
  case K_MUL: r = toZ(e->a) * toZ(e->b); break;
  case K_UDIV: r = z3::udiv(toZ(e->a), toZ(e->b)); break;
  case K_SDIV: r = toZ(e->a) / toZ(e->b); break;
  case K_UREM: r = z3::urem(toZ(e->a), toZ(e->b)); break;
  case K_SREM: r = z3::srem(toZ(e->a), toZ(e->b)); break;
  case K_AND: r = toZ(e->a) & toZ(e->b); break;
  case K_OR: r = toZ(e->a) | toZ(e->b); break;
  case K_XOR: r = toZ(e->a) ^ toZ(e->b); break;
  case K_SHL: r = z3::shl(toZ(e->a), toZ(e->b)); break;
  case K_LSHR: r = z3::lshr(toZ(e->a), toZ(e->b)); break;
  case K_ASHR: r = z3::ashr(toZ(e->a), toZ(e->b)); break;
  case K_EQ: r = b1(toZ(e->a) == toZ(e->b)); break;
  case K_ULT: r = b1(z3::ult(toZ(e->a), toZ(e->b))); break;
  case K_SLT: r = b1(toZ(e->a) < toZ(e->b)); break;
  case K_ITE: r = z3::ite(toZ(e->a) == c.bv_val(1, 1), toZ(e->b), toZ(e->d)); break;
  case K_CONCAT: r = z3::concat(toZ(e->a), toZ(e->b)); break;
  case K_EXTRACT: r = toZ(e->a).extract(e->c + e->w - 1, e->c); break;
  case K_SEXT: r = z3::sext(toZ(e->a), e->w - e->a->w); break;
  }
  cache.emplace(e, r); return r; }

struct QKey { std::vector<u32> ids; bool operator==(const QKey& o) const { return ids == o.ids; } };
struct QHash { size_t operator()(const QKey& k) const { u64 h = 1469598103934665603ull; for (u32 i : k.ids) { h ^= i; h *= 1099511628211ull; } return h; } };
struct QRes { Sat s; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<QKey, QRes, QHash> qcache;

Sat checkSat(const std::vector<E>& pc, E cond, const Model& base, Model& out) {
  if (isC(cond)) { if (cond->c) { out = base; return Sat::Yes; } return Sat::No; }
  if (base && evalE(cond, *base) == 1) { g_sstats.modelHits++; out = base; return Sat::Yes; }
  // slice
  std::vector<E> sl; std::vector<char> used(pc.size(), 0);
  std::vector<u32> syms = cond->syms->ids;
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = pc.size(); i-- > 0;) if (!used[i]) {
      auto& s = pc[i]->syms->ids; bool hit = false;
      size_t x = 0, y = 0; while (x < s.size() && y < syms.size()) { if (s[x] == syms[y]) { hit = true; break; } if (s[x] < syms[y]) x++; else y++; }
      if (hit) { used[i] = 1; sl.push_back(pc[i]); ch = true; std::vector<u32> n; std::set_union(s.begin(), s.end(), syms.begin(), syms.end(), std::back_inserter(n)); syms.swap(n); } } }
  QKey k; for (E e : sl) k.ids.push_back(e->id); std::sort(k.ids.begin(), k.ids.end()); k.ids.erase(std::unique(k.ids.begin(), k.ids.end()), k.ids.end()); k.ids.push_back(cond->id);
  auto finish = [&](const QRes& r) { if (r.s == Sat::Yes) { auto a = std::make_shared<Assignment>(base ? *base : Assignment{}); for (auto& p : r.m) a->set(p.first, p.second); out = a; } return r.s; };
  auto it = qcache.find(k); if (it != qcache.end()) { g_sstats.cacheHits++; return finish(it->second); }
  auto t0 = std::chrono::steady_clock::now();
  QRes res; 
  if (!g_domains.empty()) { u64 prod = 1; std::vector<const std::vector<u64>*> ds; for (u32 x : syms) { auto d = g_domains.find(x); if (d == g_domains.end()) { prod = 0; break; } ds.push_back(&d->second); prod *= d->second.size(); if (prod > 4096) { prod = 0; break; } }
    if (prod) { res.s = Sat::No; Assignment as; for (u64 k = 0; k < prod && res.s == Sat::No; k++) { u64 r = k; for (size_t i = 0; i < ds.size(); i++) { as.set(syms[i], (*ds[i])[r % ds[i]->size()]); r /= ds[i]->size(); } bool ok = evalE(cond, as) == 1; for (size_t i = 0; ok && i < sl.size(); i++) ok = evalE(sl[i], as) == 1; if (ok) { res.s = Sat::Yes; for (u32 x : syms) res.m.push_back({x, as.get(x)}); } }
      g_sstats.cacheHits++; qcache.emplace(k, res); return finish(res); } }
  {
    auto& c = ctx();
    static z3::solver s = [&] { z3::solver x(c, "QF_BV"); return x; }();
    s.reset(); { unsigned lim = g_solverTimeoutMs; auto now = std::chrono::steady_clock::now(); if (g_deadline != std::chrono::steady_clock::time_point::max()) { auto left = std::chrono::duration_cast<std::chrono::milliseconds>(g_deadline - now).count() + 300; if (left < 300) left = 300; if (left < (long)lim) lim = left; } z3::params p(c); p.set("timeout", lim); s.set(p); }
    auto one = c.bv_val(1, 1);
    for (E e : sl) s.add(toZ(e) == one);
    s.add(toZ(cond) == one);
    z3::check_result cr = z3::unknown;
    try { cr = s.check(); } catch (z3::exception&) { cr = z3::unknown; }
    g_sstats.queries++;
    if (cr == z3::sat) { res.s = Sat::Yes; g_sstats.sat++; z3::model m = s.get_model();
      for (u32 sy : syms) { z3::expr v = m.eval(toZ(symtab()[sy].e), true); uint64_t x = 0; if (v.is_numeral()) x = v.get_numeral_uint64(); res.m.push_back({sy, x}); } }
    else if (cr == z3::unsat) { res.s = Sat::No; g_sstats.unsat++; }
    else { res.s = Sat::Unknown; g_sstats.unknown++; }
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_sstats.secs += dt;
  static const char* slow = getenv("COSYM_SLOW"); if (slow && dt * 1000 > atof(slow)) { fprintf(stderr, "--- slow query %.2f s (%d)\n", dt, (int)res.s); for (E e : sl) fprintf(stderr, "  %s\n", toStr(e).c_str()); fprintf(stderr, "  ? %s\n", toStr(cond).c_str()); }
  static const char* dumpDir = getenv("COSYM_DUMP"); if (slow && dumpDir && dt * 1000 > atof(slow)) { z3::solver d(ctx(), "QF_BV"); for (E e : sl) d.add(toZ(e) == ctx().bv_val(1, 1)); d.add(toZ(cond) == ctx().bv_val(1, 1)); static int dn = 0; FILE* f = fopen((std::string(dumpDir) + "/q" + std::to_string(getpid()) + "_" + std::to_string(dn++) + ".smt2").c_str(), "w"); if (f) { fprintf(f, "(set-logic QF_BV)\n%s\n", d.to_smt2().c_str()); fclose(f); } }
  if (qcache.size() > 2000000) qcache.clear();
  qcache.emplace(k, res);
  return finish(res); }
}
