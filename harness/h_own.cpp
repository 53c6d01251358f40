// C03: every component object is destroyed exactly once, none is used outside its lifetime, nothing leaks.
#include "tracked.hpp"
#include <co_ecs/co_ecs.hpp>
#include <memory>
using namespace co_ecs;
template<int N, int Tag> struct Own : Tracked { using Tracked::Tracked; char pad[N]; Own(int v) : Tracked(v) {} Own(const Own& o) : Tracked(o) {} Own(Own&& o) noexcept : Tracked(std::move(o)) {} Own& operator=(const Own& o) { Tracked::operator=(o); return *this; } Own& operator=(Own&& o) noexcept { Tracked::operator=(std::move(o)); return *this; } };
using P = Own<1, 0>; using Q = Own<1, 1>; using L = Own<7000, 2>; // two L per block
struct ent { entity h; bool alive; bool has[3]; int val[3]; };
static ent me[2][12]; static unsigned mn[2]; static std::unique_ptr<registry> R[2];
template<class F> static void on(int c, F f) { switch (c) { case 0: f.template operator()<P>(); break; case 1: f.template operator()<Q>(); break; default: f.template operator()<L>(); } }
static ent& add(unsigned r, entity h) { ent& e = me[r][mn[r]++]; e = ent{}; e.h = h; e.alive = true; return e; }
static long expected() { long n = 0; for (unsigned r = 0; r < 2; r++) for (unsigned i = 0; i < mn[r]; i++) if (me[r][i].alive) for (int c = 0; c < 3; c++) n += me[r][i].has[c]; return n; }
static void verify() {
  CHECKM(g_live == expected(), "the number of live component objects differs from the components entities hold");
  for (unsigned r = 0; r < 2; r++) if (R[r]) for (unsigned i = 0; i < mn[r]; i++) { ent& e = me[r][i]; CHECKM(R[r]->alive(e.h) == e.alive, "liveness of an entity differs from the reference"); if (!e.alive) continue;
    for (int c = 0; c < 3; c++) on(c, [&]<class C>() { CHECKM(R[r]->get_entity(e.h).template has<C>() == e.has[c], "an entity's component set differs from the reference"); if (e.has[c]) CHECKM(R[r]->get_entity(e.h).template get<C>().get() == e.val[c], "a component's value differs from the reference"); }); } }
static void create(unsigned r, unsigned kind, int v) { registry& g = *R[r]; switch (kind) {
  case 0: { P p(v); entity h = g.create<P>(std::move(p)); auto& e = add(r, h); e.has[0] = 1; e.val[0] = v; break; }
  case 1: { entity h = g.create<L>(L(v)); auto& e = add(r, h); e.has[2] = 1; e.val[2] = v; break; }
  case 2: { entity h = g.create<Q, P>(Q(v + 1), P(v)); auto& e = add(r, h); e.has[0] = e.has[1] = 1; e.val[0] = v; e.val[1] = v + 1; break; }
  default: add(r, g.create<>()); } }
static void step(unsigned i) {
  int v = 1000 + 10 * i; unsigned op = cs::choice("op", 9); unsigned kinds = cs_param("kinds", 3);
  if (op == 0) { create(0, kinds == 1 ? 1 : cs::choice("kind", kinds), v); return; }
  if (!mn[0]) cs_stop(); unsigned k = cs_concretize(cs::choice("entity", mn[0])); ent& e = me[0][k]; if (!e.alive) cs_stop(); registry& r = *R[0]; auto ref = r.get_entity(e.h);
  switch (op) {
  case 1: ref.destroy(); e.alive = false; break;
  case 2: { int c = cs::choice("component", 3); on(c, [&]<class C>() { ref.template set<C>(v); }); e.has[c] = 1; e.val[c] = v; break; }
  case 3: { int c = cs::choice("component", 3); on(c, [&]<class C>() { ref.template remove<C>(); }); e.has[c] = 0; break; }
  case 4: { int c = cs::choice("component", 3); on(c, [&]<class C>() { auto& x = ref.template get_or_insert<C>(v); if (e.has[c]) { CHECKM(x.get() == e.val[c], "get_or_insert changed an existing component"); } else { e.has[c] = 1; e.val[c] = v; } }); break; }
  case 5: { entity h = ref.clone(); ent c = e; ent& n = add(0, h); c.h = h; n = c; break; }
  case 6: { entity h = ref.copy(*R[1]); ent c = e; ent& n = add(1, h); c.h = h; n = c; break; }
  case 7: { entity h = ref.move(*R[1]); ent c = e; ent& n = add(1, h); c.h = h; n = c; e.alive = false; break; }
  case 8: { int c = cs::choice("component", 3); if (!e.has[c]) cs_stop(); on(c, [&]<class C>() { if (i & 1) ref.template get<C>() = C(v); else { const auto& s = ref.template get<C>(); C copy(s); ref.template set<C>(copy); v = copy.get(); } }); e.val[c] = v; break; } } }
static uint64_t base;
static void finish() {
  unsigned first = cs::choice("registry destroyed first", 2);
  for (unsigned q = 0; q < 2; q++) { unsigned r = q ^ first; R[r].reset(); for (unsigned i = 0; i < mn[r]; i++) me[r][i].alive = false; CHECKM(g_live == expected(), "components left undestroyed after their registry is gone"); }
  CHECKM(cs_heap_live() == base, "memory leaked after the registries are gone"); cs_reach("end"); }
static void begin() { (void)component_id::value<P>; (void)component_id::value<Q>; (void)component_id::value<L>; base = cs_heap_live(); for (auto& r : R) r = std::make_unique<registry>(); }
ENTRY(c03_history) {
  begin(); unsigned pre = cs_param("pre", 2), steps = cs_param("steps", 2), prekind = cs_param("prekind", 9); for (unsigned i = 0; i < pre; i++) create(0, prekind == 9 ? (i & 1) * 2 : prekind, 10 * i);
  for (unsigned i = 0; i < steps; i++) { step(i); verify(); } finish(); }
// blocks fill, empty and are released in every order
ENTRY(c03_blocks) {
  begin(); unsigned n = 1 + cs_concretize(cs::choice("population", cs_param("n", 5))); for (unsigned i = 0; i < n; i++) create(0, 1, i); verify();
  unsigned left = n, keep = cs_concretize(cs::choice("kept", 2)); while (left > keep) { unsigned k = cs_concretize(cs::choice("victim", left)), j = 0; for (;; j++) if (me[0][j].alive && !k--) break; if (cs_param("ways", 1) > 1) { if (cs::choice("way", 2)) R[0]->get_entity(me[0][j].h).remove<L>(), R[0]->get_entity(me[0][j].h).destroy(); else R[0]->destroy(me[0][j].h); } else R[0]->destroy(me[0][j].h); me[0][j].alive = false; left--; verify(); }
  create(0, 1, 99); create(0, 1, 98); create(0, 1, 97); verify(); finish(); }
// a component constructed from one that the same operation relocates
struct W : Tracked { W(const Tracked& o) : Tracked(o) {} W(const W& o) : Tracked(o) {} W(W&& o) noexcept : Tracked(std::move(o)) {} W& operator=(const W& o) { Tracked::operator=(o); return *this; } W& operator=(W&& o) noexcept { Tracked::operator=(std::move(o)); return *this; } };
ENTRY(c03_alias) {
  (void)component_id::value<W>; begin(); unsigned kind = cs_concretize(cs::choice("kind", 2)), n = 1 + cs_concretize(cs::choice("population", 4)); for (unsigned i = 0; i < n; i++) create(0, kind, 10 * i); unsigned k = cs_concretize(cs::choice("entity", n)), j = cs_concretize(cs::choice("source", n)), ways = cs::choice("way", 3); auto ref = R[0]->get_entity(me[0][k].h); int want = me[0][j].val[kind ? 2 : 0];
  on(kind ? 2 : 0, [&]<class C>() { Tracked& src = R[0]->get_entity(me[0][j].h).template get<C>(); if (ways == 0) ref.set<W>(src); else if (ways == 1) ref.get_or_insert<W>(std::as_const(src)); else { ref.set<W>(src); Tracked& again = R[0]->get_entity(me[0][j].h).template get<C>(); ref.set<W>(again); } });
  CHECKM(ref.get<W>().get() == want, "a component constructed from another one has another value"); ref.remove<W>(); verify(); finish(); }
