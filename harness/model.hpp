// Reference model of a registry: a plain table of entities, components present and values.
#pragma once
#include "cs.hpp"
#include <co_ecs/co_ecs.hpp>
using namespace co_ecs;
struct A { int v; };
struct B { int v; };
struct E {};
// large components make blocks of storage hold few entities; copies touch the payload only
template<int N, int Tag> struct big { int v; char pad[N]; big(int x) : v(x) {} big(const big& o) : v(o.v) {} big(big&& o) noexcept : v(o.v) {} big& operator=(const big& o) { v = o.v; return *this; } big& operator=(big&& o) noexcept { v = o.v; return *this; } };
using Big = big<5000, 0>;   // three per block
using Big2 = big<7000, 1>;  // two per block; one together with Big
enum { cA, cB, cBig, cBig2, cE, NC };
struct ment { entity h; bool alive; bool has[NC]; int val[NC]; };
template<unsigned MAX = 16> struct model {
  ment e[MAX]; unsigned n = 0;
  ment& add(entity h) { ment& m = e[n++]; m.h = h; m.alive = true; for (int c = 0; c < NC; c++) { m.has[c] = false; m.val[c] = 0; } return m; }
  unsigned pick(const char* nm) { if (!n) cs_stop(); return cs::choice(nm, n); }
  unsigned pick_alive(const char* nm) { unsigned k = pick(nm); if (!e[k].alive) cs_stop(); return k; }
  unsigned alive_count() const { unsigned c = 0; for (unsigned i = 0; i < n; i++) c += e[i].alive; return c; }
};
template<class F> inline void on_type(int c, F f) { switch (c) { case cA: f.template operator()<A>(); break; case cB: f.template operator()<B>(); break; case cBig: f.template operator()<Big>(); break; case cBig2: f.template operator()<Big2>(); break; default: f.template operator()<E>(); } }
template<class C> inline C make(int v) { if constexpr (std::is_same_v<C, E>) return C{}; else return C{v}; }
template<class C> inline int value(const C& c) { if constexpr (std::is_same_v<C, E>) return 0; else return c.v; }
inline int fresh(int c) { return c == cE ? 0 : cs::i32("value"); }
// the other ways to look at one entity: several components at once, and a visit of all of them
inline void check_forms(registry& r, const ment& x, unsigned mask) { auto ref = r.get_entity(x.h); const auto kref = r.get_entity(x.h); auto cref = std::as_const(r).get_entity(x.h); CHECKM(cref.alive() && ref.alive() && entity(cref) == x.h && entity(ref) == x.h, "a reference to a live entity is another entity's");
  if ((mask & 3) == 3) { bool both = x.has[cA] && x.has[cB]; CHECKM((ref.has<A, B>() == both && cref.has<B, A>() == both && ref.has<B, E, A>() == (both && x.has[cE])), "an entity's component set differs from the reference");
    if (both) { auto [b, a] = ref.get<B, A>(); auto [ka, kb] = kref.get<A, B>(); auto [ca, cb] = cref.get<A, B>(); CHECKM(&a == &ref.get<A>() && &b == &ref.get<B>() && &ka == &a && &kb == &b && &ca == &a && &cb == &b, "several components accessed at once are others than those accessed one by one"); } }
  unsigned seen[NC] = {}, cseen[NC] = {}, all = 0;
  ref.visit([&](const component_meta& meta, void* p) { all++; for (int c = 0; c < NC; c++) on_type(c, [&]<class C>() { if (meta.id != component_meta::of<C>().id) return; seen[c]++; if (x.has[c]) CHECKM(p == &ref.template get<C>(), "a visit shows another entity's component"); }); });
  cref.visit([&](const component_meta& meta, const void* p) { all--; for (int c = 0; c < NC; c++) on_type(c, [&]<class C>() { if (meta.id != component_meta::of<C>().id) return; cseen[c]++; if (x.has[c]) CHECKM(p == &cref.template get<C>(), "a visit shows another entity's component"); }); });
  for (int c = 0; c < NC; c++) if (mask >> c & 1) CHECKM(seen[c] == (x.has[c] ? 1u : 0u) && cseen[c] == seen[c], "a visit of an entity's components misses one or shows one it does not have"); CHECKM(all == 0, "two visits of one entity differ"); }
// every live entity has exactly the modelled components and values, every dead one is dead
template<unsigned M> inline void check_model(registry& r, const model<M>& m, unsigned mask = 31) {
  for (unsigned i = 0; i < m.n; i++) { const ment& x = m.e[i];
    CHECKM(r.alive(x.h) == x.alive, "liveness of an entity differs from the reference");
    if (!x.alive) continue;
    auto ref = r.get_entity(x.h); auto cref = std::as_const(r).get_entity(x.h);
    for (int c = 0; c < NC; c++) if (mask >> c & 1) on_type(c, [&]<class C>() {
      bool h = ref.template has<C>(); CHECKM(h == x.has[c], "an entity's component set differs from the reference");
      if (h) { CHECKM(value(ref.template get<C>()) == x.val[c], "a component's value differs from the reference"); CHECKM(value(cref.template get<C>()) == x.val[c], "a component's value (const access) differs from the reference"); } });
    check_forms(r, x, mask); }
  CHECKM(r.size() == m.alive_count(), "registry size differs from the number of live entities");
}
template<class... Cs> struct kinds {};
inline void put(ment& m, int c, int v) { m.has[c] = true; m.val[c] = v; }
template<class C> constexpr int index_of_type() { if constexpr (std::is_same_v<C, A>) return cA; else if constexpr (std::is_same_v<C, B>) return cB; else if constexpr (std::is_same_v<C, Big>) return cBig; else if constexpr (std::is_same_v<C, Big2>) return cBig2; else return cE; }
// one query with entity handles: exactly the matching entities, once each, with their values
template<class... Cs, unsigned M> inline void check_view(const registry& r, const model<M>& m) {
  unsigned seen[M] = {}; auto match = [&](unsigned i) { return m.e[i].alive && (m.e[i].has[index_of_type<Cs>()] && ...); };
  for (auto t : r.view<const entity&, const Cs&...>().each()) std::apply([&](const entity& h, const Cs&... c) { unsigned k = M; for (unsigned i = 0; i < m.n; i++) if (m.e[i].alive && m.e[i].h == h) k = i; CHECKM(k < M, "a query visits something that is not a live entity"); if (k >= M) cs_stop(); seen[k]++; CHECKM(match(k), "a query visits an entity without a requested component"); (CHECKM(value(c) == m.e[k].val[index_of_type<Cs>()], "a query shows another value than was last given"), ...); }, t);
  for (unsigned i = 0; i < m.n; i++) CHECKM(seen[i] == (match(i) ? 1u : 0u), "a query misses a matching entity or visits one more than once"); }
template<unsigned M> inline void check_views(const registry& r, const model<M>& m) { check_view<>(r, m); check_view<A>(r, m); check_view<A, B>(r, m); check_view<E>(r, m); check_view<Big>(r, m); CHECKM(r.size() == m.alive_count(), "registry size differs from the number of live entities"); CHECKM(r.empty() == !m.alive_count(), "empty() differs from the set of live entities"); }
// no handle other than those of the modelled live entities (and allowed extra ones) is alive
template<unsigned M> inline void check_no_stray(const registry& r, const model<M>& m, unsigned ids = 16, unsigned gens = 1) { for (unsigned i = 0; i < ids; i++) for (unsigned g = 0; g < gens; g++) { entity h{i, g}; if (!r.alive(h)) continue; bool known = false; for (unsigned k = 0; k < m.n; k++) known |= m.e[k].alive && m.e[k].h == h; CHECKM(known, "a handle is alive that belongs to no entity"); } }
