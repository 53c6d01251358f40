#include "expr.hpp"
#include <unordered_set>
#include <algorithm>
#include <deque>
#include <sstream>
namespace cosym {

static std::deque<Expr> arena;
static std::deque<SymSet> setArena;
static std::vector<SymInfo> symbols;
std::vector<SymInfo>& symtab() { return symbols; }
size_t exprCount() { return arena.size(); }

struct KeyHash { size_t operator()(const Expr* e) const {
  u64 h = (u64)e->k * 0x9E3779B97F4A7C15ull + e->w * 0xC2B2AE3D27D4EB4Full + e->c * 0x165667B19E3779F9ull;
  auto mix = [&](E x) { h ^= (x ? x->id + 1 : 0) + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
  mix(e->a); mix(e->b); mix(e->d); return h; } };
struct KeyEq { bool operator()(const Expr* x, const Expr* y) const {
  return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
static std::unordered_set<const Expr*, KeyHash, KeyEq> table;

struct SetHash { size_t operator()(const SymSet* s) const { u64 h = 1469598103934665603ull; for (u32 i : s->ids) { h ^= i; h *= 1099511628211ull; } return h; } };
struct SetEq { bool operator()(const SymSet* a, const SymSet* b) const { return a->ids == b->ids; } };
static std::unordered_set<const SymSet*, SetHash, SetEq> setTable;
static const SymSet* internSet(SymSet&& s) { auto it = setTable.find(&s); if (it != setTable.end()) return *it; setArena.push_back(std::move(s)); setTable.insert(&setArena.back()); return &setArena.back(); }
static const SymSet* emptySet() { static const SymSet* e = internSet(SymSet{}); return e; }
static const SymSet* uni(const SymSet* a, const SymSet* b) {
  if (a == b || b->ids.empty()) return a; if (a->ids.empty()) return b;
  SymSet r; std::set_union(a->ids.begin(), a->ids.end(), b->ids.begin(), b->ids.end(), std::back_inserter(r.ids)); return internSet(std::move(r)); }

static E intern(Kind k, unsigned w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr) {
  Expr t{k, (u16)w, 0, c, a, b, d, nullptr};
  auto it = table.find(&t); if (it != table.end()) return *it;
  const SymSet* s = emptySet(); if (a) s = uni(s, a->syms); if (b) s = uni(s, b->syms); if (d) s = uni(s, d->syms);
  if (k == K_SYM) s = internSet(SymSet{{(u32)c}});
  t.syms = s; t.id = arena.size(); arena.push_back(t); table.insert(&arena.back()); return &arena.back();
}

E mkConst(u64 v, unsigned w) { 
  if (w > 64) return mkConcat(mkConst(0, w - 64 > 64 ? 64 : w - 64), mkConst(v, 64));
  return intern(K_CONST, w, v & mask(w)); }
E mkZeroWide(unsigned w) { if (w <= 64) return mkConst(0, w); return intern(K_CONCAT, w, 0, mkZeroWide(w - 64), mkConst(0, 64)); }
E mkSym(const std::string& name, unsigned w) {
  assert(w <= 64);
  u32 i = symbols.size(); E e = intern(K_SYM, w, i); symbols.push_back({name, w, e}); return e; }

// number of known-zero high bits
unsigned hiZeros(E e, int d) {
  if (e->k == K_CONST) { unsigned n = 0; while (n < e->w && !((e->c >> (e->w - 1 - n)) & 1)) n++; return n; }
  if (d > 6) return 0;
  if (e->k == K_CONCAT) { unsigned h = hiZeros(e->a, d + 1); return h == e->a->w ? h + hiZeros(e->b, d + 1) : h; }
  if (e->k == K_ITE) return std::min(hiZeros(e->b, d + 1), hiZeros(e->d, d + 1));
  if (e->k == K_AND) return std::max(hiZeros(e->a, d + 1), hiZeros(e->b, d + 1));
  if (e->k == K_OR || e->k == K_XOR) return std::min(hiZeros(e->a, d + 1), hiZeros(e->b, d + 1));
  if (e->k == K_UREM || e->k == K_UDIV) return hiZeros(e->a, d + 1);
  if (e->w <= 64 && e->k == K_ADD) { unsigned z = hiZeros(e->b, d + 1); if (!z) return 0; z = std::min(z, hiZeros(e->a, d + 1)); return z ? z - 1 : 0; }
  if (e->w <= 64 && e->k == K_MUL) { unsigned x = hiZeros(e->b, d + 1); if (!x) return 0; unsigned y = hiZeros(e->a, d + 1); return x + y > e->w ? x + y - e->w : 0; }
  if (e->w <= 64 && e->k == K_SHL && isC(e->b)) { unsigned x = hiZeros(e->a, d + 1); return x > e->b->c ? x - e->b->c : 0; }
  return 0; }
static bool wideConst(E e, unsigned __int128& v) {
  if (e->k == K_CONST) { v = e->c; return true; }
  if (e->k == K_CONCAT && e->w <= 128) { unsigned __int128 h, l; if (!wideConst(e->a, h) || !wideConst(e->b, l)) return false; v = (h << e->b->w) | l; return true; }
  return false; }
static E mkWide(unsigned __int128 v, unsigned w) { if (w <= 64) return mkConst((u64)v, w); 
  E lo = mkConst((u64)v, 64); E hi = mkConst((u64)(v >> 64), w - 64); return intern(K_CONCAT, w, 0, hi, lo); }
#define WIDEFOLD(OP) if (a->w > 64) { unsigned __int128 x, y; if (wideConst(a, x) && wideConst(b, y)) return mkWide(OP, a->w); }

E mkNeg(E a) { return mkSub(mkConst(0, a->w), a); }
// canonical form of sums: terms with constant coefficients, ordered, constant last
static bool linTerms(E e, u64 coef, std::vector<std::pair<E, u64>>& t, u64& c, int& budget) {
  if (--budget < 0) return false; u64 m = mask(e->w); coef &= m; if (!coef) return true;
  if (isC(e)) { c += coef * e->c; return true; }
  if (e->k == K_ADD) return linTerms(e->a, coef, t, c, budget) && linTerms(e->b, coef, t, c, budget);
  if (e->k == K_MUL && isC(e->b)) return linTerms(e->a, coef * e->b->c, t, c, budget);
  if (e->k == K_SHL && isC(e->b) && e->b->c < e->w) return linTerms(e->a, coef << e->b->c, t, c, budget);
  for (auto& p : t) if (p.first == e) { p.second = (p.second + coef) & m; return true; } t.push_back({e, coef}); return true; }
static E linBuild(std::vector<std::pair<E, u64>>& t, u64 c, unsigned w) {
  std::sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; }); E r = nullptr;
  for (auto& p : t) if (p.second & mask(w)) { E x = mkMul(p.first, mkConst(p.second, w)); r = r ? intern(K_ADD, w, 0, r, x) : x; }
  if (!r) return mkConst(c, w); if (c & mask(w)) r = intern(K_ADD, w, 0, r, mkConst(c, w)); return r; }
static E linSum(E a, E b) {
  if (a->w > 64 || a->w == 1) return nullptr; auto isLin = [](E e) { return e->k == K_ADD || (e->k == K_MUL && isC(e->b)) || (e->k == K_SHL && isC(e->b)); };
  if (a != b && !isLin(a) && !isLin(b)) return nullptr;
  std::vector<std::pair<E, u64>> t; u64 c = 0; int budget = 40; if (!linTerms(a, 1, t, c, budget) || !linTerms(b, 1, t, c, budget)) return nullptr;
  return linBuild(t, c, a->w); }
E mkAdd(E a, E b) {
  assert(a->w == b->w);
  if (isC(a) && isC(b)) return mkConst(a->c + b->c, a->w);
  WIDEFOLD(x + y)
  if (isC(a)) std::swap(a, b);
  if (isC(b, 0)) return a;
  if (isC(b)) { if (a->k == K_ADD && isC(a->b)) return mkAdd(a->a, mkConst(a->b->c + b->c, a->w));
    if (a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->d, b)); }
  else if (E l = linSum(a, b)) return l;
  else {
    if (a->k == K_ADD && isC(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
    if (b->k == K_ADD && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
    // x + (-1*x)
    if (b->k == K_MUL && isC(b->b, mask(a->w)) && b->a == a) return mkConst(0, a->w);
    if (a->k == K_MUL && isC(a->b, mask(a->w)) && a->a == b) return mkConst(0, a->w);
    // (p + x) + -x , (p + -x) + x
    auto neg = [](E x, E y) { return (x->k == K_MUL && x->w <= 64 && isC(x->b, mask(x->w)) && x->a == y) || (y->k == K_MUL && y->w <= 64 && isC(y->b, mask(y->w)) && y->a == x); };
    if (a->k == K_ADD) { if (neg(a->b, b)) return a->a; if (neg(a->a, b)) return a->b; }
    if (b->k == K_ADD) { if (neg(b->b, a)) return b->a; if (neg(b->a, a)) return b->b; }
    if (a->id > b->id) std::swap(a, b);
  }
  return intern(K_ADD, a->w, 0, a, b);
}
E mkSub(E a, E b) {
  if (a == b) return mkZeroWide(a->w);
  WIDEFOLD(x - y)
  if (isC(b)) return mkAdd(a, mkConst(0 - b->c, b->w));
  if (a->w > 64) { // a + ~b + 1
    E ones = nullptr; for (unsigned r = a->w; r;) { unsigned n = r > 64 ? 64 : r; E p = mkConst(~0ull, n); ones = ones ? intern(K_CONCAT, ones->w + n, 0, ones, p) : p; r -= n; }
    return mkAdd(mkAdd(a, mkXor(b, ones)), mkZExt(mkConst(1, 8), a->w)); }
  // distribute over constant offset
  if (b->k == K_ADD && isC(b->b)) return mkAdd(mkSub(a, b->a), mkConst(0 - b->b->c, a->w));
  if (b->k == K_ADD) return mkSub(mkSub(a, b->a), b->b);
  return mkAdd(a, mkMul(b, mkConst(~0ull, a->w)));
}
E mkMul(E a, E b) {
  if (isC(a) && isC(b)) return mkConst(a->c * b->c, a->w);
  WIDEFOLD(x * y)
  if (isC(a)) std::swap(a, b);
  if (isC(b, 0)) return b; if (isC(b, 1)) return a;
  if (isC(b)) {
    if (a->k == K_MUL && isC(a->b)) return mkMul(a->a, mkConst(a->b->c * b->c, a->w));
    if (a->k == K_ADD && isC(a->b)) return mkAdd(mkMul(a->a, b), mkConst(a->b->c * b->c, a->w));
    if (a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkMul(a->b, b), mkMul(a->d, b));
    if ((b->c & (b->c - 1)) == 0) return mkShl(a, mkConst(__builtin_ctzll(b->c), a->w));
  } else {
    if (a->w <= 64 && a->k == K_ADD && isC(a->b)) return mkAdd(mkMul(a->a, b), mkMul(b, a->b));
    if (a->w <= 64 && b->k == K_ADD && isC(b->b)) return mkAdd(mkMul(a, b->a), mkMul(a, b->b));
    if (a->id > b->id) std::swap(a, b); }
  return intern(K_MUL, a->w, 0, a, b);
}
static E narrowDiv(E (*f)(E, E), E a, E b) {
  unsigned z = std::min(hiZeros(a), hiZeros(b)); if (z >= a->w) z = a->w - 1;
  if (z == 0) return nullptr; unsigned n = a->w - z;
  return mkZExt(f(mkExtract(a, 0, n), mkExtract(b, 0, n)), a->w); }
E mkUDiv(E a, E b) {
  if (isC(a) && isC(b) && b->c) return mkConst(a->c / b->c, a->w);
  if (a->w > 64) { unsigned __int128 x, y; if (wideConst(a, x) && wideConst(b, y) && y) return mkWide(x / y, a->w); }
  if (isC(b, 1)) return a;
  if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkLShr(a, mkConst(__builtin_ctzll(b->c), a->w));
  if (E r = narrowDiv(mkUDiv, a, b)) return r;
  return intern(K_UDIV, a->w, 0, a, b); }
E mkURem(E a, E b) {
  if (isC(a) && isC(b) && b->c) return mkConst(a->c % b->c, a->w);
  if (a->w > 64) { unsigned __int128 x, y; if (wideConst(a, x) && wideConst(b, y) && y) return mkWide(x % y, a->w); }
  if (isC(b, 1)) return mkConst(0, a->w);
  if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkZExt(mkExtract(a, 0, __builtin_ctzll(b->c)), a->w);
  if (E r = narrowDiv(mkURem, a, b)) return r;
  return intern(K_UREM, a->w, 0, a, b); }
E mkSDiv(E a, E b) {
  if (isC(a) && isC(b) && b->c) { i64 x = sx(a->c, a->w), y = sx(b->c, b->w); return mkConst(y == -1 ? (u64)(0 - (u64)x) : (u64)(x / y), a->w); }
  if (hiZeros(a) && hiZeros(b)) return mkUDiv(a, b);
  return intern(K_SDIV, a->w, 0, a, b); }
E mkSRem(E a, E b) {
  if (isC(a) && isC(b) && b->c) { i64 x = sx(a->c, a->w), y = sx(b->c, b->w); return mkConst(y == -1 ? 0 : (u64)(x % y), a->w); }
  if (hiZeros(a) && hiZeros(b)) return mkURem(a, b);
  return intern(K_SREM, a->w, 0, a, b); }
E mkAnd(E a, E b) {
  if (a == b) return a;
  if (isC(a) && isC(b)) return mkConst(a->c & b->c, a->w);
  WIDEFOLD(x & y)
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (b->c == 0) return b; if (b->c == mask(b->w)) return a;
    if ((b->c & (b->c + 1)) == 0) { unsigned n = __builtin_popcountll(b->c); return mkZExt(mkExtract(a, 0, n), a->w); }
    // contiguous run of ones
    { unsigned lo = __builtin_ctzll(b->c); u64 s = b->c >> lo; if ((s & (s + 1)) == 0) { unsigned n = __builtin_popcountll(s);
      E m = mkConcat(mkExtract(a, lo, n), mkConst(0, lo)); return mkZExt(m, a->w); } }
    if (a->k == K_AND && isC(a->b)) return mkAnd(a->a, mkConst(a->b->c & b->c, a->w));
    if (a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkAnd(a->b, b), mkAnd(a->d, b));
  } else {
    if (a->w == 1) { // x & !x
      if ((a->k == K_XOR && isC(a->b, 1) && a->a == b) || (b->k == K_XOR && isC(b->b, 1) && b->a == a)) return mkConst(0, 1);
      if (a->k == K_AND && (a->a == b || a->b == b)) return a; if (b->k == K_AND && (b->a == a || b->b == a)) return b; }
    if (a->k == K_CONCAT && b->k == K_CONCAT && a->a->w == b->a->w) return mkConcat(mkAnd(a->a, b->a), mkAnd(a->b, b->b));
    if (a->id > b->id) std::swap(a, b);
  }
  return intern(K_AND, a->w, 0, a, b); }
E mkOr(E a, E b) {
  if (a == b) return a;
  if (isC(a) && isC(b)) return mkConst(a->c | b->c, a->w);
  WIDEFOLD(x | y)
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (b->c == 0) return a; if (b->c == mask(b->w)) return b;
    if (a->k == K_CONCAT) { unsigned lw = a->b->w; if (lw <= 64 && a->a->w <= 64) return mkConcat(mkOr(a->a, mkConst(b->c >> lw, a->a->w)), mkOr(a->b, mkConst(b->c, lw))); }
  } else {
    if (a->w == 1 && ((a->k == K_XOR && isC(a->b, 1) && a->a == b) || (b->k == K_XOR && isC(b->b, 1) && b->a == a))) return mkConst(1, 1);
    // concat alignment: or of disjoint concats
    if (a->k == K_CONCAT && b->k == K_CONCAT) {
      if (a->b->w == b->b->w) return mkConcat(mkOr(a->a, b->a), mkOr(a->b, b->b));
      // split the one with the coarser low part
      unsigned lw = std::min(a->b->w, b->b->w); unsigned w = a->w;
      auto zeroIn = [&](E x, unsigned lo, unsigned n) { E p = mkExtract(x, lo, n); return isC(p, 0); };
      if (zeroIn(a, 0, lw) || zeroIn(b, 0, lw) || zeroIn(a, lw, w - lw) || zeroIn(b, lw, w - lw))
        return mkConcat(mkOr(mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw)), mkOr(mkExtract(a, 0, lw), mkExtract(b, 0, lw)));
    }
    if (a->id > b->id) std::swap(a, b);
  }
  return intern(K_OR, a->w, 0, a, b); }
E mkXor(E a, E b) {
  if (a == b) return mkZeroWide(a->w);
  if (isC(a) && isC(b)) return mkConst(a->c ^ b->c, a->w);
  WIDEFOLD(x ^ y)
  if (isC(a)) std::swap(a, b);
  if (isC(b)) { if (b->c == 0) return a; if (a->k == K_XOR && isC(a->b)) return mkXor(a->a, mkConst(a->b->c ^ b->c, a->w));
    if (a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkXor(a->b, b), mkXor(a->d, b)); }
  else if (a->id > b->id) std::swap(a, b);
  return intern(K_XOR, a->w, 0, a, b); }
E mkNot(E a) { assert(a->w == 1); return mkXor(a, mkConst(1, 1)); }
E mkShl(E a, E b) {
  if (isC(b)) { u64 n = b->c; if (n >= a->w) return mkZeroWide(a->w); if (n == 0) return a;
    if (isC(a)) return mkConst(a->c << n, a->w); return mkConcat(mkExtract(a, 0, a->w - n), mkZeroWide(n)); }
  unsigned __int128 sh; if (wideConst(b, sh)) { if (sh >= a->w) return mkZeroWide(a->w); if (sh == 0) return a; return mkConcat(mkExtract(a, 0, a->w - (unsigned)sh), mkZeroWide((unsigned)sh)); }
  return intern(K_SHL, a->w, 0, a, b); }
E mkLShr(E a, E b) {
  if (isC(b)) { u64 n = b->c; if (n >= a->w) return mkZeroWide(a->w); if (n == 0) return a;
    return mkZExt(mkExtract(a, n, a->w - n), a->w); }
  unsigned __int128 sh; if (wideConst(b, sh)) { if (sh >= a->w) return mkZeroWide(a->w); if (sh == 0) return a; return mkZExt(mkExtract(a, (unsigned)sh, a->w - (unsigned)sh), a->w); }
  return intern(K_LSHR, a->w, 0, a, b); }
E mkAShr(E a, E b) {
  if (isC(b)) { u64 n = b->c; if (n >= a->w) n = a->w - 1; if (n == 0) return a;
    return mkSExt(mkExtract(a, n, a->w - n), a->w); }
  return intern(K_ASHR, a->w, 0, a, b); }
E mkEq(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return mkTrue();
  if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
  if (a->w > 64) { unsigned __int128 x, y; if (wideConst(a, x) && wideConst(b, y)) return mkConst(x == y, 1); }
  if (isC(a)) std::swap(a, b);
  if (a->w == 1) { if (isC(b)) return b->c ? a : mkNot(a); return mkNot(mkXor(a, b)); }
  if (isC(b)) {
    if (a->k == K_CONCAT && a->w <= 64) { unsigned lw = a->b->w; return mkAnd(mkEq(a->a, mkConst(b->c >> lw, a->a->w)), mkEq(a->b, mkConst(b->c, lw))); }
    if (a->k == K_SEXT) { u64 lo = b->c & mask(a->a->w); if ((u64)(sx(lo, a->a->w)) != (u64)sx(b->c, a->w)) return mkFalse(); return mkEq(a->a, mkConst(lo, a->a->w)); }
    if (a->k == K_ADD && isC(a->b)) return mkEq(a->a, mkConst(b->c - a->b->c, a->w));
    if (a->k == K_XOR && isC(a->b)) return mkEq(a->a, mkConst(b->c ^ a->b->c, a->w));
    if (a->k == K_MUL && isC(a->b, mask(a->w))) return mkEq(a->a, mkConst(0 - b->c, a->w));
    if (a->k == K_ADD && a->b->k == K_MUL && isC(a->b->b, mask(a->w)) && b->c == 0) return mkEq(a->a, a->b->a);
    if (a->k == K_ADD && a->a->k == K_MUL && isC(a->a->b, mask(a->w)) && b->c == 0) return mkEq(a->b, a->a->a);
    if (a->k == K_ITE) { if (isC(a->b) || isC(a->d)) { 
        E t = mkEq(a->b, b), f = mkEq(a->d, b); return mkOr(mkAnd(a->a, t), mkAnd(mkNot(a->a), f)); } }
  } else {
    if (a->k == K_CONCAT && b->k == K_CONCAT && a->a->w == b->a->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && isC(b->b)) return mkEq(mkAdd(a->a, mkConst(a->b->c - b->b->c, a->w)), b->a);
    if (a->w > 1 && a->w <= 64 && (a->k == K_ADD || b->k == K_ADD)) { std::vector<std::pair<E, u64>> t; u64 c = 0; int budget = 40; if (linTerms(a, 1, t, c, budget) && linTerms(b, ~0ull, t, c, budget)) { bool any = false; for (auto& p : t) if (p.second & mask(a->w)) any = true; if (!any) return mkConst((c & mask(a->w)) == 0, 1); } }
    if (a->k == K_ADD && isC(a->b) && a->a == b) return mkFalse();
    if (b->k == K_ADD && isC(b->b) && b->a == a) return mkFalse();
    if (a->id > b->id) std::swap(a, b);
  }
  return intern(K_EQ, 1, 0, a, b); }
E mkUlt(E a, E b) {
  if (a == b) return mkFalse();
  if (isC(a) && isC(b)) return mkConst(a->c < b->c, 1);
  if (a->w > 64) { unsigned __int128 x, y; if (wideConst(a, x) && wideConst(b, y)) return mkConst(x < y, 1); }
  if (isC(b, 0)) return mkFalse(); if (isC(b, 1)) return mkEq(a, mkConst(0, a->w));
  if (isC(a, 0)) return mkNe(b, mkConst(0, b->w)); if (a->w <= 64 && isC(a, mask(a->w))) return mkFalse();
  if (a->w == 1) return mkAnd(mkNot(a), b);
  unsigned z = std::min(hiZeros(a), hiZeros(b)); if (z >= a->w) z = a->w - 1;
  if (z > 0) return mkUlt(mkExtract(a, 0, a->w - z), mkExtract(b, 0, b->w - z));
  // constant out of range of zero-extended operand
  if (isC(b) && hiZeros(a) > hiZeros(b)) return mkTrue();
  if (isC(a) && hiZeros(b) > hiZeros(a)) return mkFalse();
  if (a->k == K_ITE && isC(b) && isC(a->b) && isC(a->d)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->d, b));
  if (b->k == K_ITE && isC(a) && isC(b->b) && isC(b->d)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->d));
  return intern(K_ULT, 1, 0, a, b); }
E mkSlt(E a, E b) {
  if (a == b) return mkFalse();
  if (isC(a) && isC(b)) return mkConst(sx(a->c, a->w) < sx(b->c, b->w), 1);
  if (hiZeros(a) && hiZeros(b)) return mkUlt(a, b);
  if (isC(b) && a->w <= 64) { if (b->c == (1ull << (a->w - 1))) return mkFalse(); if (b->c == 0) return mkEq(mkExtract(a, a->w - 1, 1), mkConst(1, 1));
     if (hiZeros(a) && (b->c >> (a->w - 1))) return mkFalse(); }
  if (isC(a) && a->w <= 64) { if (hiZeros(b) && (a->c >> (a->w - 1))) return mkTrue(); 
     if (a->c == mask(a->w)) return mkEq(mkExtract(b, a->w - 1, 1), mkConst(0, 1)); }
  if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  if (a->k == K_ITE && isC(b) && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->d, b));
  if (b->k == K_ITE && isC(a) && isC(b->b) && isC(b->d)) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->d));
  return intern(K_SLT, 1, 0, a, b); }
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_XOR && isC(c->b, 1)) return mkIte(c->a, b, a);
  if (a->w == 1) { if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b); if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a); }
  if (a->k == K_ITE && a->a == c) a = a->b; if (b->k == K_ITE && b->a == c) b = b->d;
  if (a->k == K_CONCAT && b->k == K_CONCAT && a->a->w == b->a->w) return mkConcat(mkIte(c, a->a, b->a), mkIte(c, a->b, b->b));
  if (a == b) return a;
  return intern(K_ITE, a->w, 0, c, a, b); }
// an extract that keeps arithmetic whole, so that bytes of a stored value can be joined again
E mkExtractRaw(E a, unsigned lo, unsigned w) { if (w == a->w) return a; switch (a->k) { case K_ADD: case K_MUL: case K_AND: case K_OR: case K_XOR: return intern(K_EXTRACT, w, lo, a); case K_EXTRACT: return mkExtractRaw(a->a, a->c + lo, w); default: return mkExtract(a, lo, w); } }
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo) && w <= 64) return mkConst((hi->c << lo->w) | lo->c, w);
  // right-nest: ((a.b).lo) -> a.(b.lo)
  if (hi->k == K_CONCAT && !(hi->w > 64 && isC(hi->b) && isC(lo) )) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtractRaw(hi->a, lo->c, w);
  if (lo->k == K_CONCAT) {
    E m = lo->a;
    if (isC(hi) && isC(m) && hi->w + m->w <= 64) return mkConcat(mkConst((hi->c << m->w) | m->c, hi->w + m->w), lo->b);
    if (hi->k == K_EXTRACT && m->k == K_EXTRACT && hi->a == m->a && hi->c == m->c + m->w) return mkConcat(mkExtractRaw(hi->a, m->c, hi->w + m->w), lo->b);
  }
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  return intern(K_CONCAT, w, 0, hi, lo); }
E mkExtract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w && w > 0);
  if (w == a->w) return a;
  switch (a->k) {
  case K_CONST: return mkConst(a->c >> lo, w);
  case K_EXTRACT: return mkExtract(a->a, a->c + lo, w);
  case K_CONCAT: { unsigned lw = a->b->w; if (lo >= lw) return mkExtract(a->a, lo - lw, w); if (lo + w <= lw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
  case K_SEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
    return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
  case K_ITE: if ((isC(a->b) || a->b->k == K_CONCAT || a->b->k == K_SEXT || a->b->k == K_EXTRACT) || (isC(a->d) || a->d->k == K_CONCAT || a->d->k == K_SEXT || a->d->k == K_EXTRACT)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); break;
  case K_AND: return mkAnd(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_OR: return mkOr(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_XOR: return mkXor(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_ADD: if (lo == 0) return mkAdd(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case K_MUL: if (lo == 0) return mkMul(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  default: break;
  }
  return intern(K_EXTRACT, w, lo, a); }
E mkZExt(E a, unsigned w) { assert(w >= a->w); if (w == a->w) return a; return mkConcat(mkZeroWide(w - a->w), a); }
E mkSExt(E a, unsigned w) {
  assert(w >= a->w); if (w == a->w) return a; if (isC(a) && w <= 64) return mkConst((u64)sx(a->c, a->w), w);
  if (isC(a)) return (a->c >> (a->w - 1)) & 1 ? mkConcat(mkConst(~0ull, w - 64), mkConst((u64)sx(a->c, a->w), 64)) : mkZExt(a, w);
  if (hiZeros(a)) return mkZExt(a, w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
  return intern(K_SEXT, w, 0, a); }

// ---- evaluation ----
static std::vector<u64> memoV; static std::vector<u32> memoT; static u32 epoch = 0;
static unsigned __int128 ev(E e, const Assignment& m);
static u64 ev64(E e, const Assignment& m) { return (u64)ev(e, m); }
static unsigned __int128 m128(unsigned w) { return w >= 128 ? ~(unsigned __int128)0 : (((unsigned __int128)1 << w) - 1); }
static unsigned __int128 ev(E e, const Assignment& m) {
  if (e->k == K_CONST) return e->c;
  if (e->w <= 64 && memoT[e->id] == epoch) return memoV[e->id];
  unsigned __int128 r = 0;
  switch (e->k) {
  case K_SYM: r = m.get((u32)e->c) & mask(e->w); break;
  case K_ADD: r = ev(e->a, m) + ev(e->b, m); break;
  case K_MUL: r = ev(e->a, m) * ev(e->b, m); break;
  case K_UDIV: { auto y = ev(e->b, m); auto x = ev(e->a, m); r = y ? x / y : m128(e->w); break; }
  case K_UREM: { auto y = ev(e->b, m); auto x = ev(e->a, m); r = y ? x % y : x; break; }
  case K_SDIV: { i64 x = sx(ev64(e->a, m), e->w), y = sx(ev64(e->b, m), e->w); r = y == 0 ? (x < 0 ? 1 : mask(e->w)) : y == -1 ? (u64)(0 - (u64)x) : (u64)(x / y); break; }
  case K_SREM: { i64 x = sx(ev64(e->a, m), e->w), y = sx(ev64(e->b, m), e->w); r = y == 0 ? (u64)x : y == -1 ? 0 : (u64)(x % y); break; }
  case K_AND: r = ev(e->a, m) & ev(e->b, m); break;
  case K_OR: r = ev(e->a, m) | ev(e->b, m); break;
  case K_XOR: r = ev(e->a, m) ^ ev(e->b, m); break;
  case K_SHL: { auto s = ev(e->b, m); r = s >= e->w ? 0 : ev(e->a, m) << (unsigned)s; break; }
  case K_LSHR: { auto s = ev(e->b, m); r = s >= e->w ? 0 : ev(e->a, m) >> (unsigned)s; break; }
  case K_ASHR: { auto s = ev(e->b, m); if (s >= e->w) s = e->w - 1; r = (u64)(sx(ev64(e->a, m), e->w) >> (unsigned)s); break; }
  case K_EQ: r = ev(e->a, m) == ev(e->b, m); break;
  case K_ULT: r = ev(e->a, m) < ev(e->b, m); break;
  case K_SLT: r = sx(ev64(e->a, m), e->a->w) < sx(ev64(e->b, m), e->b->w); break;
  case K_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->d, m); break;
  case K_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
  case K_EXTRACT: r = ev(e->a, m) >> e->c; break;
  case K_SEXT: { auto x = ev64(e->a, m); r = (unsigned __int128)(__int128)sx(x, e->a->w); break; }
  default: break;
  }
  r &= m128(e->w);
  if (e->w <= 64) { memoT[e->id] = epoch; memoV[e->id] = (u64)r; }
  return r; }
u64 evalE(E e, const Assignment& m) {
  if (e->k == K_CONST) return e->c;
  if (memoT.size() < arena.size()) { memoT.resize(arena.size() * 2 + 1024, 0); memoV.resize(memoT.size()); }
  if (++epoch == 0) { std::fill(memoT.begin(), memoT.end(), 0); epoch = 1; }
  return (u64)ev(e, m); }

std::string toStr(E e, int d) {
  static const char* n[] = {"c","s","+","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<s","ite","cat","ext","sext"};
  if (e->k == K_CONST) return std::to_string(e->c); if (e->k == K_SYM) return symbols[e->c].name;
  if (d == 0) return "..";
  std::string r = std::string("(") + n[e->k]; if (e->k == K_EXTRACT) r += "[" + std::to_string(e->c) + ":" + std::to_string(e->w) + "]";
  if (e->a) r += " " + toStr(e->a, d - 1); if (e->b) r += " " + toStr(e->b, d - 1); if (e->d) r += " " + toStr(e->d, d - 1); return r + ")"; }
}
