// C16: the sparse map against a reference map.
#include "tracked.hpp"
#include <cstdint>
#include <concepts>
#include <co_ecs/detail/sparse_map.hpp>
#include <memory>
using namespace co_ecs::detail;
template<class K> struct ref { bool has[8]; int v[8]; unsigned n() const { unsigned c = 0; for (bool b : has) c += b; return c; } };
template<class K, class M> static void agree(M& m, const ref<K>& r, const K* U, unsigned N) {
  const M& c = m; CHECKM(m.size() == r.n(), "size differs from the reference map"); CHECKM(m.empty() == (r.n() == 0), "empty() differs from the reference map");
  for (unsigned i = 0; i < N; i++) { K k = U[i]; auto it = m.find(k); bool f = it != m.end(); CHECKM(f == r.has[i], "find differs from the reference map"); if (f && r.has[i]) { CHECKM(it->first == k, "find returned another key"); CHECKM(it->second.get() == r.v[i], "a value differs from the reference map"); }
    CHECKM(c.contains(k) == r.has[i], "contains differs from the reference map"); CHECKM((c.find(k) != c.end()) == r.has[i], "const find differs from the reference map"); bool th = false; int v = 0; try { v = (i & 1) ? c.at(k).get() : m.at(k).get(); } catch (const std::out_of_range&) { th = true; } CHECKM(th == !r.has[i], "at() throws exactly for missing keys"); if (!th) CHECKM(v == r.v[i], "at() returns another value"); }
  bool seen[8] = {}; unsigned n = 0; for (auto& [k, v] : m) { n++; bool ok = false; for (unsigned i = 0; i < N; i++) if (U[i] == k) { ok = r.has[i] && !seen[i]; seen[i] = true; if (ok) CHECKM(v.get() == r.v[i], "iteration presents another value"); } CHECKM(ok, "iteration presents a pair that is not in the map or presents it twice"); } CHECKM(n == r.n(), "iteration does not present every pair");
  unsigned q = 0; for (auto it = c.cbegin(); it != c.cend(); ++it) q++; CHECKM(q == r.n(), "const iteration does not present every pair"); }
template<class K> static void history(const K* U, unsigned N) {
  using M = sparse_map<K, Tracked>; uint64_t base = cs_heap_live(); unsigned steps = cs_param("steps", 4), ops = cs_param("ops", 11); ref<K> r{};
  auto m = std::make_unique<M>();
  for (unsigned i = 0; i < steps; i++) { int val = 100 + i; unsigned op = cs::choice("op", ops);
    if (op < 6) { unsigned j = cs::choice("key", N); K k = U[j]; bool had = r.has[j];
      switch (op) {
      case 0: { auto [it, ins] = m->emplace(k, val); CHECKM(ins == !had, "emplace reports whether it inserted"); CHECKM(it->first == k, "emplace returns the element"); if (!had) { r.has[j] = true; r.v[j] = val; } CHECKM(it->second.get() == r.v[j], "emplace returns the element's value"); break; }
      case 1: { auto n = m->erase(k); CHECKM(n == (had ? 1u : 0u), "erase reports the number of erased elements"); r.has[j] = false; break; }
      case 2: { (*m)[k] = Tracked(val); r.has[j] = true; r.v[j] = val; break; }
      case 3: { typename M::value_type p(k, val); auto [it, ins] = m->insert(p); CHECKM(ins == !had, "insert reports whether it inserted"); if (!had) { r.has[j] = true; r.v[j] = val; } CHECKM(it->second.get() == r.v[j], "insert returns the element's value"); break; }
      case 4: { int& x = *(*m)[k].cell; x = val; r.has[j] = true; r.v[j] = val; break; }
      case 5: m->reserve_sparse((size_t)k + 1); m->reserve_dense(3); break; } }
    else switch (op) {
      case 6: m->clear(); for (auto& b : r.has) b = false; break;
      case 7: { auto c = std::make_unique<M>(*m); agree<K>(*m, r, U, N); m = std::move(c); break; }
      case 8: { auto c = std::make_unique<M>(std::move(*m)); m->clear(); CHECKM(!m->contains(U[0]) && m->size() == 0, "a moved-from map that was cleared is empty"); m->emplace(U[N - 1], 5); CHECKM(m->contains(U[N - 1]), "a moved-from map can be filled again"); m = std::move(c); break; }
      case 9: { M c; c.emplace(U[0], 7); c.emplace(U[1], 8); c = *m; agree<K>(*m, r, U, N); *m = std::move(c); break; }
      case 10: { M c{{U[0], Tracked(1)}, {U[1], Tracked(2)}}; ref<K> q{}; q.has[0] = q.has[1] = true; q.v[0] = 1; q.v[1] = 2; agree<K>(c, q, U, N); std::swap(c, *m); std::swap(*m, c); break; } }
    agree<K>(*m, r, U, N); CHECKM(g_live == (long)r.n(), "an element that left the map was not destroyed (or destroyed twice)"); }
  m.reset(); CHECKM(g_live == 0, "elements left undestroyed after the map is gone"); CHECKM(cs_heap_live() == base, "memory leaked"); cs_reach("end"); }
ENTRY(c16_u8) { static const uint8_t U[] = {0, 1, 5, 254, 255}; history<uint8_t>(U, cs_param("keys", 3) == 3 ? 3 : 5); }
ENTRY(c16_u8_edges) { static const uint8_t U[] = {255, 0, 128}; history<uint8_t>(U, 3); }
ENTRY(c16_u16) { static const uint16_t U[] = {300, 0, 4095}; history<uint16_t>(U, 3); }
ENTRY(c16_u64) { static const uint64_t U[] = {0, 17, 600}; history<uint64_t>(U, 3); }
// arbitrary keys, and looked-up keys related to them in every way that could matter
static uint8_t related(const char* nm, uint8_t a) { switch (cs::choice(nm, 8)) { case 0: return a; case 1: return a + 1; case 2: return a - 1; case 3: return a ^ 128; case 4: return ~a; case 5: return 0; case 6: return 255; default: return 17; } }
ENTRY(c16_anykey) {
  sparse_map<uint8_t, int> m; uint8_t a = cs::u8("a"), b = related("b", a), c = related("c", b);
  CHECK(!m.contains(c)); m.emplace(a, 1); CHECK(m.contains(a)); CHECK(m.contains(c) == (c == a)); m.emplace(b, 2); CHECK(m.at(b) == (a == b ? 1 : 2)); CHECK(m.at(a) == 1); CHECK(m.contains(c) == (c == a || c == b)); CHECK(m.size() == (a == b ? 1 : 2));
  m.erase(a); CHECK(!m.contains(a)); CHECK(m.contains(b) == (a != b)); CHECK(m.contains(c) == (c == b && a != b)); if (a != b) CHECK(m.at(b) == 2); m[a] = 3; CHECK(m.at(a) == 3); cs_reach("end"); }
// the whole key space at once
ENTRY(c16_full) {
  sparse_map<uint8_t, int> m; unsigned first = cs::choice("first", cs_param("firsts", 4)); unsigned n = 250 + cs::choice("count", 7); cs_assume(n <= 256); n = cs_concretize(n);
  for (unsigned i = 0; i < n; i++) m.emplace((uint8_t)(first * 67 + i * 5), (int)i);
  CHECKM(m.size() == n, "size differs after filling the key space"); unsigned c = 0; for (auto& p : m) { (void)p; c++; } CHECKM(c == n, "iteration differs after filling the key space");
  for (unsigned i = 0; i < 256; i++) { uint8_t k = first * 67 + i * 5; CHECKM(m.contains(k) == (i < n), "lookup differs after filling the key space"); if (i < n) CHECKM(m.at(k) == (int)i, "value differs after filling the key space"); }
  uint8_t v = first * 67 + 5 * cs_concretize(cs::choice("victim", 3)); m.erase(v); CHECK(!m.contains(v)); CHECK(m.size() == n - 1); cs_reach("end"); }
