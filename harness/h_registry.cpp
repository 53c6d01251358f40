// C02: the registry keeps for every entity exactly the components and values last given.
#include "model.hpp"
static model<16> m;
static void create(registry& r, unsigned kind) {
  int a = 0, b = 0;
  switch (kind) {
  case 0: { a = fresh(cA); entity h = r.create<A>({a}); put(m.add(h), cA, a); break; }
  case 1: { a = fresh(cA); b = fresh(cB); entity h = r.create<B, A>({b}, {a}); auto& x = m.add(h); put(x, cA, a); put(x, cB, b); break; }
  case 2: { entity h = r.create<>(); m.add(h); break; }
  case 3: { a = fresh(cBig); entity h = r.create<Big>(Big{a}); put(m.add(h), cBig, a); break; }
  case 4: { a = fresh(cBig); b = fresh(cB); entity h = r.create<B, Big>({b}, Big{a}); auto& x = m.add(h); put(x, cBig, a); put(x, cB, b); break; }
  case 6: { a = fresh(cBig2); entity h = r.create<Big2>(Big2{a}); put(m.add(h), cBig2, a); break; }
  case 5: { a = fresh(cBig); b = fresh(cBig2); entity h = r.create<Big, Big2>(Big{a}, Big2{b}); auto& x = m.add(h); put(x, cBig, a); put(x, cBig2, b); break; }
  } }
static void do_set(registry& r, unsigned k, int c, bool form) { int v = fresh(c); on_type(c, [&]<class C>() { auto ref = r.get_entity(m.e[k].h); if constexpr (std::is_same_v<C, E>) ref.set<C>(); else if (form) { if (!m.e[k].has[c]) { auto& x = ref.template get_or_insert<C>(v); CHECKM(x.v == v, "get_or_insert returned another value"); } else { auto& x = ref.template get_or_insert<C>(v); CHECKM(x.v == m.e[k].val[c], "get_or_insert changed an existing component"); v = m.e[k].val[c]; } } else ref.set<C>(v); }); put(m.e[k], c, v); }
static void do_remove(registry& r, unsigned k, int c) { on_type(c, [&]<class C>() { r.get_entity(m.e[k].h).template remove<C>(); }); m.e[k].has[c] = false; }
static void destroy(registry& r, unsigned k, bool viaRef) { if (viaRef) r.get_entity(m.e[k].h).destroy(); else r.destroy(m.e[k].h); m.e[k].alive = false; }
static void assign(registry& r, unsigned k, int c) { if (!m.e[k].has[c]) return; int v = fresh(c); on_type(c, [&]<class C>() { if constexpr (!std::is_same_v<C, E>) r.get_entity(m.e[k].h).template get<C>().v = v; }); m.e[k].val[c] = v; }
// small components, every kind of structural change
ENTRY(c02_small) {
  registry r; unsigned steps = cs_param("steps", 4), pre = cs_param("pre", 2);
  for (unsigned i = 0; i < pre; i++) create(r, i % 2);
  for (unsigned i = 0; i < steps; i++) {
    unsigned op = cs::choice("op", 5);
    if (op == 0) create(r, cs::choice("kind", 3));
    else { unsigned k = m.pick_alive("entity");
      if (op == 1) destroy(r, k, i & 1);
      else if (op == 2) { unsigned c = cs::choice("component", 3); do_set(r, k, c == 2 ? cE : c, i & 1); }
      else if (op == 3) { unsigned c = cs::choice("component", 3); do_remove(r, k, c == 2 ? cE : c); }
      else assign(r, k, cA); }
    check_model(r, m, 1 << cA | 1 << cB | 1 << cE);
  }
  cs_reach("end");
}
// large components: storage spills over several blocks, blocks empty and refill
ENTRY(c02_blocks) {
  registry r; unsigned steps = cs_param("steps", 3), kind = cs_param("kind", 3), max = cs_param("max", 7);
  unsigned pre = cs::choice("population", max + 1);
  for (unsigned i = 0; i < pre; i++) create(r, kind);
  check_model(r, m, 15);
  for (unsigned i = 0; i < steps; i++) {
    unsigned op = cs::choice("op", 4);
    if (op == 0) create(r, kind);
    else { unsigned k = m.pick_alive("entity"); if (op == 1) destroy(r, k, false); else if (op == 2) { if (m.e[k].has[cB]) do_remove(r, k, cB); else do_set(r, k, cB, false); } else { if (m.e[k].has[cBig]) do_remove(r, k, cBig); else do_set(r, k, cBig, false); } }
    check_model(r, m, 15);
  }
  cs_reach("end");
}
// an emptied registry is as good as new
ENTRY(c02_drain) {
  registry r; unsigned kind = cs_param("kind", 3), nmax = cs_param("n", 5); unsigned n = 1 + cs::choice("population", nmax);
  for (unsigned i = 0; i < n; i++) create(r, kind);
  unsigned left = n; while (left) { unsigned k = cs::choice("victim", left), j = 0; for (;; j++) if (m.e[j].alive && !k--) break; destroy(r, j, true); left--; check_model(r, m, 15); }
  CHECKM(r.empty(), "registry not empty after destroying every entity");
  for (unsigned i = 0; i < 4; i++) create(r, kind);
  check_model(r, m, 15); cs_reach("end");
}
// the value given may be part of an entity's component, also of one that the operation relocates
template<class S, class C> static int set_from(registry& r, entity k, entity j, unsigned way) { auto ref = r.get_entity(k); auto& src = r.get_entity(j).get<S>();
  if constexpr (!std::is_same_v<C, E>) { switch (way) { case 0: ref.set<C>(src.v); break; case 1: return ref.get_or_insert<C>(src.v).v; default: if constexpr (std::is_same_v<S, C>) ref.set<C>(src); else ref.set<C>(std::as_const(src.v)); } return ref.get<C>().v; } return 0; }
ENTRY(c02_alias) {
  registry r; unsigned pre = cs_param("pre", 3), steps = cs_param("steps", 1), kind = cs_param("kind", 0);
  for (unsigned i = 0; i < pre; i++) create(r, kind);
  for (unsigned i = 0; i < steps; i++) {
    unsigned k = m.pick_alive("entity"), j = m.pick_alive("source"); int from = kind == 3 ? cBig : cA; static const int tos[] = {cA, cB, cBig, cBig2}; int to = tos[cs_concretize(cs::choice("component", 4))]; if (!m.e[j].has[from]) cs_stop(); unsigned way = cs_concretize(cs::choice("way", 3)); int v = way == 1 && m.e[k].has[to] ? m.e[k].val[to] : m.e[j].val[from], got = 0;
    on_type(to, [&]<class C>() { got = kind == 3 ? set_from<Big, C>(r, m.e[k].h, m.e[j].h, way) : set_from<A, C>(r, m.e[k].h, m.e[j].h, way); });
    CHECKM(got == v, "a component given a value taken from another one has another value"); put(m.e[k], to, v); check_model(r, m, 15); }
  cs_reach("end");
}
