// C06: misuse is reported by the documented exception and leaves the registry as it was.
#include "model.hpp"
struct Huge { char c[17000]; }; struct H1 { int v; char c[9000]; }; struct H2 { int v; char c[9000]; };
static model<16> m, d; static registry* other;
template<class X, class F> static void expect(F f, const char* msg) { int got = 0; try { f(); } catch (const X&) { got = 1; } catch (...) { got = 2; } CHECKM(got == 1, msg); }
static const char* NF = "an access to a dead entity is not reported as entity_not_found"; static const char* CN = "an access to an absent component is not reported as component_not_found"; static const char* IS = "components too large for a block are not reported as insufficient_chunk_size";
static bool h1[16];
constexpr unsigned NDEAD = 25, NMISS = 10, NBIG = 5;
static void dead_access(registry& r, entity h, unsigned form) {
  auto ref = r.get_entity(h); const auto cref = r.get_entity(h); const auto cer = std::as_const(r).get_entity(h);
  expect<entity_not_found>([&] { switch (form) {
    case 0: (void)ref.get<A>(); break; case 1: (void)cref.get<A>(); break; case 2: (void)ref.get<A, B>(); break; case 3: (void)cref.get<A, B>(); break; case 4: (void)ref.has<A>(); break; case 5: (void)ref.has<A, B>(); break;
    case 6: (void)ref.archetype(); break; case 7: ref.set<A>(1); break; case 8: (void)ref.get_or_insert<B>(2); break; case 9: ref.remove<A>(); break; case 10: ref.destroy(); break; case 11: r.destroy(h); break;
    case 12: ref.visit([](auto&&...) {}); break; case 13: cref.visit([](auto&&...) {}); break; case 14: cer.visit([](auto&&...) {}); break; case 15: (void)ref.clone(); break; case 16: (void)ref.copy(*other); break; case 17: (void)ref.move(*other); break;
    case 18: (void)cer.get<A>(); break; case 19: (void)cer.get<A, B>(); break; case 20: (void)cer.has<A>(); break; case 21: (void)cer.archetype(); break; case 22: (void)cer.copy(*other); break; case 23: (void)r.has<A>(h); break; case 24: ref.set<E>(); break; } }, NF);
  CHECKM(!ref.alive() && !cer.alive(), "a dead entity is reported alive"); }
// into a reserved entity: the reservation stays usable
static void dead_placeholder(registry& r, entity h, unsigned form, unsigned src) {
  auto ref = r.get_entity(h); const auto cer = std::as_const(r).get_entity(h); registry& dst = form == 0 ? r : *other; auto& dm = form == 0 ? m : d; auto ph = dst.reserve();
  expect<entity_not_found>([&] { switch (form) { case 0: (void)ref.clone(ph); break; case 1: (void)ref.copy(dst, ph); break; case 2: (void)ref.move(dst, ph); break; default: (void)cer.copy(dst, ph); } }, NF);
  ment e = m.e[src]; if (form == 0) (void)r.get_entity(e.h).clone(ph); else (void)r.get_entity(e.h).copy(dst, ph); dst.sync(); ment& n = dm.add(ph.get_entity()); e.h = n.h; n = e; if (form == 0) h1[m.n - 1] = h1[src]; }
static void missing(registry& r, ment& e, unsigned form) {
  auto ref = r.get_entity(e.h); const auto cref = r.get_entity(e.h); const auto cer = std::as_const(r).get_entity(e.h); bool both = e.has[cA] && e.has[cB];
  bool fails = form == 0 || form == 1 || form == 6 ? !e.has[cA] : form == 2 || form == 3 || form == 7 ? !both : form == 4 || form == 5 || form == 8 ? !e.has[cE] : true; if (!fails) cs_stop();
  expect<component_not_found>([&] { switch (form) { case 0: (void)ref.get<A>(); break; case 1: (void)cref.get<A>(); break; case 2: (void)ref.get<A, B>(); break; case 3: (void)cref.get<B, A>(); break; case 4: (void)ref.get<E>(); break; case 5: (void)cref.get<E>(); break; case 6: (void)cer.get<A>(); break; case 7: (void)cer.get<A, B>(); break; case 8: (void)cer.get<E>(); break; case 9: (void)ref.get<H2>(); break; } }, CN); }
static void too_big(registry& r, unsigned k, unsigned form) {
  ment& e = m.e[k]; if (form >= 2 && !e.alive) cs_stop(); auto ref = r.get_entity(e.h); if (form >= 3 && !h1[k]) cs_stop(); static const H1 x{}; static const H2 y{}; static const Huge z{};
  expect<insufficient_chunk_size>([&] { switch (form) { case 0: (void)r.create<Huge>(Huge(z)); break; case 1: (void)r.create<H1, A, H2>(H1(x), {1}, H2(y)); break; case 2: ref.set<Huge>(z); break; case 3: ref.set<H2>(y); break; case 4: (void)ref.get_or_insert<H2>(y); break; } }, IS); }
static void verify(registry& r) { check_model(r, m, 1 << cA | 1 << cB | 1 << cE); check_model(*other, d, 1 << cA | 1 << cB | 1 << cE); check_views(r, m); check_views(*other, d); check_no_stray(r, m); check_no_stray(*other, d);
  for (unsigned i = 0; i < m.n; i++) if (m.e[i].alive) { CHECKM(r.get_entity(m.e[i].h).has<H1>() == h1[i], "an entity's component set differs from the reference"); CHECKM(!r.get_entity(m.e[i].h).has<H2>() && !r.get_entity(m.e[i].h).has<Huge>(), "a component that was refused is reported as present"); }
  unsigned n = 0; for (auto [h, a] : r.view<const entity&, H1&>().each()) n++; unsigned want = 0; for (unsigned i = 0; i < m.n; i++) want += m.e[i].alive && h1[i]; CHECKM(n == want, "a query visits the wrong number of entities"); for (auto [h] : r.view<H2&>().each()) CHECKM(false, "a query visits a component that was refused"); }
static void create(registry& r, unsigned kind) { int a = fresh(cA), b = fresh(cB); entity h; switch (kind) { case 0: h = r.create<A>({a}); put(m.add(h), cA, a); break; case 1: { h = r.create<B, A>({b}, {a}); auto& x = m.add(h); put(x, cA, a); put(x, cB, b); break; } case 2: { static const H1 z{}; h = r.create<H1, B>(H1(z), {b}); h1[m.n] = true; put(m.add(h), cB, b); break; } default: h = r.create<>(); m.add(h); } }
static void valid(registry& r, unsigned i) { unsigned op = cs::choice("op", 4);
  if (op == 0) { create(r, cs::choice("kind", 3)); return; }
  unsigned k = m.pick_alive("entity"); ment& e = m.e[k]; auto ref = r.get_entity(e.h); if (op == 1) { ref.destroy(); e.alive = false; } else if (op == 2) { int v = fresh(cA); ref.set<A>(v); put(e, cA, v); } else { ref.remove<B>(); e.has[cB] = false; } }
static void afterwards(registry& r) { // ordinary operations still work
  create(r, 0); create(r, 2); create(r, 1); verify(r); unsigned k = m.n - 1; int v = fresh(cB); r.get_entity(m.e[k].h).set<E>(); put(m.e[k], cE, 0); r.get_entity(m.e[k - 1].h).set<A>(v); put(m.e[k - 1], cA, v); for (unsigned i = 0; i < m.n; i++) if (m.e[i].alive) { r.get_entity(m.e[i].h).remove<B>(); m.e[i].has[cB] = false; } verify(r); r.get_entity(m.e[0].h).alive() ? r.destroy(m.e[0].h) : void(); m.e[0].alive = false; entity h = r.create<E>({}); put(m.add(h), cE, 0); verify(r); }
static entity dead_handle() { unsigned w = cs::choice("which dead handle", 4); if (w == 0) { unsigned k = m.pick("destroyed"); if (m.e[k].alive) cs_stop(); return m.e[k].h; } if (w == 1) return entity{}; if (w == 2) return entity{m.n + 3, 0}; unsigned k = m.pick("future"); return entity{m.e[k].h.id(), m.e[k].h.generation() + 1 + (unsigned)!m.e[k].alive}; }
static void setup(registry& r) { unsigned pre = cs_param("pre", 3); for (unsigned i = 0; i < pre; i++) create(r, i % 3); unsigned steps = cs_param("steps", 1); for (unsigned i = 0; i < steps; i++) valid(r, i); entity h = other->create<A>({7}); put(d.add(h), cA, 7); }
ENTRY(c06_dead) { registry r, o; other = &o; setup(r); entity h = dead_handle(); if (r.alive(h)) cs_stop(); dead_access(r, h, cs::choice("access", NDEAD)); verify(r); afterwards(r); cs_reach("end"); }
ENTRY(c06_placeholder) { registry r, o; other = &o; setup(r); entity h = dead_handle(); if (r.alive(h)) cs_stop(); unsigned src = m.pick_alive("source"); if (h1[src]) cs_stop(); dead_placeholder(r, h, cs::choice("access", 4), src); verify(r); afterwards(r); cs_reach("end"); }
ENTRY(c06_missing) { registry r, o; other = &o; setup(r); unsigned k = m.pick_alive("entity"); missing(r, m.e[k], cs::choice("access", NMISS)); verify(r); afterwards(r); cs_reach("end"); }
ENTRY(c06_too_big) { registry r, o; other = &o; setup(r); unsigned n = 1 + cs::choice("again", 2); for (unsigned i = 0; i < n; i++) { too_big(r, m.pick("entity"), cs::choice("operation", NBIG)); verify(r); } afterwards(r); cs_reach("end"); }
// a reserved entity that was synchronised but never given components is an entity without components
ENTRY(c06_reserved) { registry r, o; other = &o; create(r, 0); create(r, 1); auto ph = r.reserve(); r.sync(); entity h = ph.get_entity(); CHECK(r.alive(h)); auto ref = r.get_entity(h); static const char* M = "a synchronised reserved entity cannot be accessed"; int ok = 0;
  unsigned op = cs::choice("access", 6); try { switch (op) { case 0: ok = !ref.has<A>(); break; case 1: try { (void)ref.get<A>(); } catch (const component_not_found&) { ok = 1; } break; case 2: ref.set<A>(5); ok = ref.get<A>().v == 5; break; case 3: ref.remove<A>(); ok = 1; break; case 4: ref.destroy(); ok = !r.alive(h); break; case 5: ok = 1; ref.visit([&](auto&&...) { ok = 0; }); break; } } catch (...) { ok = 0; }
  CHECKM(ok, M); cs_reach("end"); }
