// C15: the hash map against a reference map, for arbitrary hash values.
#include "tracked.hpp"
#include <co_ecs/detail/hash_map.hpp>
#include <optional>
#include <memory>
using namespace co_ecs::detail;
static constexpr unsigned MAXK = 40;
static uint64_t H[MAXK]; static bool known[MAXK]; static unsigned hashMode;
struct Key { uint8_t k; int* own; // owned cell: keys have lifetimes too
  Key(uint8_t x) : k(x), own(new int(x)) {} Key(const Key& o) : k(o.k), own(o.own ? new int(*o.own) : nullptr) {} Key(Key&& o) noexcept : k(o.k), own(o.own) { o.own = nullptr; }
  Key& operator=(const Key& o) { if (this != &o) { delete own; k = o.k; own = o.own ? new int(*o.own) : nullptr; } return *this; } Key& operator=(Key&& o) noexcept { if (this != &o) { delete own; k = o.k; own = o.own; o.own = nullptr; } return *this; } ~Key() { delete own; }
  bool operator==(const Key& o) const { return k == o.k; } };
static uint64_t symHash() { uint64_t h = cs::u64("hash"); cs_assume((h & cs_param("hmask", 0)) == 0); return h; }
struct SymHash { size_t operator()(const Key& x) const { if (!known[x.k]) { known[x.k] = true; H[x.k] = hashMode == 0 ? symHash() : hashMode == 1 ? 0 : x.k * 16; } return H[x.k]; } };
using map = hash_map<Key, Tracked, SymHash>;
struct ref { bool has[MAXK]; int v[MAXK]; unsigned n() const { unsigned c = 0; for (bool b : has) c += b; return c; } };
static void agree(map& m, const ref& r, unsigned K) {
  const map& c = m;
  CHECKM(m.size() == r.n(), "size differs from the reference map"); CHECKM(m.empty() == (r.n() == 0), "empty() differs from the reference map");
  for (unsigned k = 0; k < K; k++) { Key key(k); auto it = m.find(key); bool f = it != m.end(); CHECKM(f == r.has[k], "find differs from the reference map"); if (f && r.has[k]) { CHECKM(it->first.k == k && it->first.own, "find returned another key"); CHECKM(it->second.get() == r.v[k], "a value differs from the reference map"); }
    CHECKM(c.contains(key) == r.has[k], "contains differs from the reference map"); CHECKM(c.count(key) == (r.has[k] ? 1u : 0u), "count differs from the reference map");
    bool thrown = false; int v = 0; try { v = (k & 1) ? c.at(key).get() : m.at(key).get(); } catch (const std::out_of_range&) { thrown = true; } CHECKM(thrown == !r.has[k], "at() throws exactly for missing keys"); if (!thrown) CHECKM(v == r.v[k], "at() returns another value"); }
  bool seen[MAXK] = {}; unsigned cnt = 0;
  for (auto& [k, v] : m) { cnt++; CHECKM(k.k < K && r.has[k.k] && !seen[k.k], "iteration presents a pair that is not in the map or presents it twice"); seen[k.k] = true; CHECKM(v.get() == r.v[k.k], "iteration presents another value"); if (cnt > K) break; }
  CHECKM(cnt == r.n(), "iteration does not present every pair");
  cnt = 0; for (auto it = c.begin(); it != c.end(); ++it) cnt++; CHECKM(cnt == r.n(), "const iteration does not present every pair");
}
static void step(std::unique_ptr<map>& m, ref& r, unsigned K, int val, unsigned ops) {
  unsigned op = cs::choice("op", ops);
  if (op < 6) { unsigned k = cs::choice("key", K); Key key(k); bool had = r.has[k];
    switch (op) {
    case 0: { auto [it, ins] = m->emplace(key, val); CHECKM(ins == !had, "emplace reports whether it inserted"); CHECKM(it->first.k == k, "emplace returns the element"); if (!had) { r.has[k] = true; r.v[k] = val; } CHECKM(it->second.get() == r.v[k], "emplace returns the element's value"); break; }
    case 1: { m->erase(key); r.has[k] = false; break; }
    case 2: { (*m)[key] = Tracked(val); r.has[k] = true; r.v[k] = val; break; }
    case 3: { map::value_type p(key, val); auto [it, ins] = m->insert_or_assign(p); CHECKM(ins == !had, "insert_or_assign reports whether it inserted"); r.has[k] = true; r.v[k] = val; CHECKM(it->first.k == k && it->second.get() == val, "insert_or_assign returns the element"); break; }
    case 4: { auto it = m->find(key); if (it != m->end()) { m->erase(it); } r.has[k] = false; break; }
    case 5: { map::value_type p(key, val); auto [it, ins] = m->insert(p); CHECKM(ins == !had, "insert reports whether it inserted"); if (!had) { r.has[k] = true; r.v[k] = val; } CHECKM(it->first.k == k && it->second.get() == r.v[k], "insert returns the element"); break; } } }
  else switch (op) {
    case 6: m->clear(); for (auto& b : r.has) b = false; break;
    case 7: { auto c = std::make_unique<map>(*m); agree(*m, r, K); m = std::move(c); break; }
    case 8: { auto c = std::make_unique<map>(std::move(*m)); CHECKM(true, ""); m->emplace(Key(0), 77); CHECKM(m->contains(Key(0)), "a moved-from map can be filled again"); m = std::move(c); break; }
    case 9: { map c; c.emplace(Key(1), 5); c = *m; agree(*m, r, K); *m = std::move(c); break; }
    case 10: { static const unsigned n[] = {32, 20, 0, 3}; m->reserve(n[cs::choice("reserve", cs_param("reserves", 2))]); break; } }
}
static long base_heap;
static void finish(std::unique_ptr<map>& m, const ref& r) { CHECKM(g_live == (long)r.n(), "an element that left the map was not destroyed (or destroyed twice)"); m.reset(); CHECKM(g_live == 0, "elements left undestroyed after the map is gone"); CHECKM(cs_heap_live() == (uint64_t)base_heap, "memory leaked"); }
ENTRY(c15_history) {
  base_heap = cs_heap_live(); hashMode = cs_param("hash", 0);
  unsigned steps = cs_param("steps", 4), K = cs_param("keys", 3), ops = cs_param("ops", 11); ref r{}; auto m = std::make_unique<map>(cs_param("buckets", 4));
  for (unsigned k = 0; k < cs_param("pre", 0); k++) { m->emplace(Key(k), 50 + k); r.has[k] = true; r.v[k] = 50 + k; }
  for (unsigned i = 0; i < steps; i++) { step(m, r, K, 100 + i, ops); agree(*m, r, K); CHECKM(g_live == (long)r.n(), "an element that left the map was not destroyed (or destroyed twice)"); }
  finish(m, r); cs_reach("end");
}
// growth and shrinking: a population large enough to cross every rehash; the first keys have arbitrary hashes
ENTRY(c15_rehash) {
  base_heap = cs_heap_live(); hashMode = 0; ref r{}; auto m = std::make_unique<map>(); const unsigned K = cs_param("keys", 34), free = cs_param("free", 1); 
  unsigned mode = cs_concretize(cs::choice("hash pattern", 3)); for (unsigned k = free; k < MAXK; k++) { known[k] = true; H[k] = mode == 0 ? 15 + 64 * (k % 3) : mode == 1 ? k : 31 * k; }
  unsigned n = 13 + cs_concretize(cs::choice("population", K - 12));
  for (unsigned k = n; k-- > 0;) { m->emplace(Key(k), k); r.has[k] = true; r.v[k] = k; }
  agree(*m, r, K);
  unsigned drop = cs_concretize(cs::choice("removed", 3)); for (unsigned i = 0; i + 1 + drop * 8 < n && i < 20; i++) { unsigned k = (i * 7) % n; m->erase(Key(k)); r.has[k] = false; } 
  agree(*m, r, K); m->emplace(Key(1), 999); if (!r.has[1]) { r.has[1] = true; r.v[1] = 999; } agree(*m, r, K);
  finish(m, r); cs_reach("end");
}
// construction from ranges and initializer lists, with any number of buckets
ENTRY(c15_construct) {
  base_heap = cs_heap_live(); hashMode = 0; { std::optional<map> m; ref r{}; const unsigned K = 4; static const unsigned sizes[] = {2, 4, 16, 32, 64}; unsigned b = sizes[cs_concretize(cs::choice("buckets", 5))]; unsigned probe = cs_param("hashes", 6);
  for (unsigned k = 0; k < K; k++) { known[k] = true; uint64_t h = cs_sym("hash", 64); cs_assume((h & 63) < probe || (h & 63) > 61); H[k] = k < 2 ? h : k; }
  { unsigned n = cs_concretize(cs::choice("count", 4)); unsigned ks[3]; for (unsigned i = 0; i < 3; i++) ks[i] = i < n ? cs_concretize(cs::choice("k", i + 1)) : 0; map::value_type vals[3] = {{Key(ks[0]), 1}, {Key(ks[1]), 2}, {Key(ks[2]), 3}};
    for (unsigned i = 0; i < n; i++) { r.has[ks[i]] = true; r.v[ks[i]] = i + 1; }
    const map::value_type* f = vals; if (cs::choice("list", 2) == 0 || n != 2) m.emplace(f, f + n, (size_t)b, SymHash(), std::equal_to<Key>()); else m.emplace(std::initializer_list<map::value_type>{vals[0], vals[1]}, (size_t)b, SymHash(), std::equal_to<Key>()); }
  agree(*m, r, K); m->emplace(Key(3), 9); if (!r.has[3]) { r.has[3] = true; r.v[3] = 9; } agree(*m, r, K);
  }
  CHECKM(g_live == 0, "elements left undestroyed after the map is gone"); CHECKM(cs_heap_live() == (uint64_t)base_heap, "memory leaked"); cs_reach("end");
}
// the key or value given may be part of an element of the map itself, also when the map grows
ENTRY(c15_alias) {
  base_heap = cs_heap_live(); hashMode = cs_param("hash", 0); static const unsigned sizes[] = {2, 4, 16}; unsigned b = sizes[cs_concretize(cs::choice("buckets", cs_param("tables", 3)))]; unsigned pre = cs_param("pre", 3), K = pre + 1; if (b == 16) { hashMode = 1; pre = 14; K = 15; } else if (pre > b) pre = b; ref r{}; auto m = std::make_unique<map>(b);
  for (unsigned k = 0; k < pre; k++) { m->emplace(Key(k), 50 + k); r.has[k] = true; r.v[k] = 50 + k; }
  unsigned k = cs_concretize(cs::choice("key", K)), j = cs_concretize(cs::choice("source", pre)); auto it = m->find(Key(j)); bool had = r.has[k];
  switch (cs::choice("op", 11)) {
    case 0: { auto [x, ins] = m->emplace(Key(k), it->second); CHECKM(ins == !had, "emplace reports whether it inserted"); if (!had) { r.has[k] = true; r.v[k] = r.v[j]; } CHECKM(x->second.get() == r.v[k], "emplace returns the element's value"); break; }
    case 1: { auto [x, ins] = m->insert(*it); CHECKM(!ins && x->first.k == j && x->second.get() == r.v[j], "inserting an element the map has returns that element"); break; }
    case 2: { auto [x, ins] = m->insert_or_assign(*it); CHECKM(!ins && x->first.k == j && x->second.get() == r.v[j], "assigning an element of the map to itself keeps it"); break; }
    case 3: (*m)[it->first] = Tracked(7); r.v[j] = 7; break;
    case 4: m->erase(it->first); r.has[j] = false; break;
    case 5: { auto [x, ins] = m->emplace(it->first, it->second); CHECKM(!ins && x->first.k == j, "emplacing an element the map has returns that element"); break; }
    case 6: { auto x = m->insert(it, map::value_type(Key(k), 9)); if (!had) { r.has[k] = true; r.v[k] = 9; } CHECKM(x->first.k == k && x->second.get() == r.v[k], "insert with a hint returns the element"); break; }
    case 7: { auto x = m->insert(m->begin(), *it); CHECKM(x->first.k == j && x->second.get() == r.v[j], "insert with a hint returns the element"); break; }
    case 8: { auto& same = *m; *m = same; break; }
    case 9: { map c(m->begin(), m->end(), b, SymHash(), std::equal_to<Key>()); agree(c, r, K); break; }
    case 10: { m->erase(std::as_const(*m).find(Key(j))); r.has[j] = false; break; } }
  agree(*m, r, K); finish(m, r); cs_reach("end");
}
