// Bit-vector expression DAG: hash-consed, simplified on construction.
#pragma once
#include <chrono>
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <cassert>

namespace cosym {
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;

enum Kind : u8 {
  K_CONST, K_SYM, K_ADD, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT, K_ITE, K_CONCAT, K_EXTRACT, K_SEXT
};

struct SymSet { std::vector<u32> ids; };   // sorted symbol indices

struct Expr {
  Kind k; u16 w; u32 id; u64 c;            // c: constant / symbol index / extract low bit
  const Expr *a, *b, *d;
  const SymSet* syms;                      // never null
};
using E = const Expr*;

inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)((v ^ m) - m); }

E mkConst(u64 v, unsigned w);              // w <= 64 (wider: concat)
E mkSym(const std::string& name, unsigned w);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b); E mkNeg(E a); unsigned hiZeros(E e, int depth = 0);
E mkUDiv(E a, E b); E mkSDiv(E a, E b); E mkURem(E a, E b); E mkSRem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkSlt(E a, E b);
inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtractRaw(E a, unsigned lo, unsigned w); E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w); E mkSExt(E a, unsigned w); 
E mkZeroWide(unsigned w);
inline bool isC(E e) { return e->k == K_CONST; }
inline bool isC(E e, u64 v) { return e->k == K_CONST && e->c == v; }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }

// symbols
struct SymInfo { std::string name; unsigned w; E e; };
std::vector<SymInfo>& symtab();

struct Assignment { std::vector<std::pair<u32, u64>> v; // sorted by symbol index; absent = 0
  u64 get(u32 s) const { size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].first < s) lo = m + 1; else hi = m; } return lo < v.size() && v[lo].first == s ? v[lo].second : 0; }
  void set(u32 s, u64 x) { size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].first < s) lo = m + 1; else hi = m; } if (lo < v.size() && v[lo].first == s) v[lo].second = x; else v.insert(v.begin() + lo, {s, x}); }
};
using Model = std::shared_ptr<const Assignment>;

u64 evalE(E e, const Assignment& m);       // e->w <= 64
std::string toStr(E e, int depth = 6);
size_t exprCount();

// ---- solver ----
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double secs = 0; };
extern SolverStats g_sstats;
enum class Sat { Yes, No, Unknown };
// Decide satisfiability of pc (all) and cond. base: a model satisfying pc. On Yes, out is a model of pc and cond.
Sat checkSat(const std::vector<E>& pc, E cond, const Model& base, Model& out);
extern std::unordered_map<u32, std::vector<u64>> g_domains;   // symbols the path condition restricts to a few constants
extern unsigned g_solverTimeoutMs; extern std::chrono::steady_clock::time_point g_deadline;
// independent re-solving of logged queries (cross-check); 
}
