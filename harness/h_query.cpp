// C05: every form of query visits exactly the matching live entities, once, with their own components.
#include "model.hpp"
#include <thread>
static model<16> m; static unsigned seen[16];
static void begin_pass() { for (auto& s : seen) s = 0; }
static unsigned index_of(entity h) { for (unsigned i = 0; i < m.n; i++) if (m.e[i].alive && m.e[i].h == h) return i; CHECKM(false, "a query visits something that is not a live entity"); cs_stop(); return 0; }
template<class C> constexpr int cidx() { if constexpr (std::is_same_v<C, A>) return cA; else if constexpr (std::is_same_v<C, B>) return cB; else if constexpr (std::is_same_v<C, Big>) return cBig; else if constexpr (std::is_same_v<C, Big2>) return cBig2; else return cE; }
template<class C> static void same(registry& r, unsigned i, const C& c) {
  if constexpr (std::is_same_v<C, entity>) { CHECKM(c == m.e[i].h, "the queried handle is another entity's"); }
  else { CHECKM(m.e[i].has[cidx<C>()], "a query visits an entity without a requested component"); CHECKM(&c == &r.get_entity(m.e[i].h).template get<C>(), "a query refers to another entity's component"); CHECKM(value(c) == m.e[i].val[cidx<C>()], "a query shows another value than was last given"); } }
template<class... Cs> static bool matches(unsigned i) { auto one = [&]<class C>() { if constexpr (std::is_same_v<C, entity>) return true; else return m.e[i].has[cidx<C>()]; }; return m.e[i].alive && (one.template operator()<Cs>() && ...); }
template<class... Cs> static void end_pass() { for (unsigned i = 0; i < m.n; i++) { CHECKM(seen[i] >= (matches<Cs...>(i) ? 1u : 0u), "a query misses a matching entity"); CHECKM(seen[i] <= (matches<Cs...>(i) ? 1u : 0u), "a query visits an entity more than once"); } }
template<class... Cs> static unsigned expected() { unsigned n = 0; for (unsigned i = 0; i < m.n; i++) n += matches<Cs...>(i); return n; }
// which entity a component belongs to, by address
template<class C> static unsigned owner(registry& r, const C& c) { if constexpr (std::is_same_v<C, entity>) return index_of(c); else { for (unsigned i = 0; i < m.n; i++) if (m.e[i].alive && m.e[i].has[cidx<C>()] && &r.get_entity(m.e[i].h).template get<C>() == &c) return i; CHECKM(false, "a query yields a component of no live entity"); cs_stop(); return 0; } }
template<class First, class... Rest> static void visit1(registry& r, const First& f, const Rest&... rest) { unsigned i = owner<First>(r, f); seen[i]++; same(r, i, f); (same(r, i, rest), ...); }
template<class... Cs> static void queries(registry& r, view<Cs&...>& mv, view<const Cs&...>& cv, bool par) {
  const registry& cr = r;
  auto tup = [&](const auto& t) { std::apply([&](const auto&... c) { visit1<Cs...>(r, c...); }, t); };
  begin_pass(); for (auto t : mv.each()) tup(t); end_pass<Cs...>();
  begin_pass(); for (auto t : cv.each()) tup(t); end_pass<Cs...>();
  begin_pass(); mv.each([&](Cs&... c) { visit1<Cs...>(r, c...); }); end_pass<Cs...>();
  begin_pass(); std::as_const(cv).each([&](const Cs&... c) { visit1<Cs...>(r, c...); }); end_pass<Cs...>();
  begin_pass(); r.each([&](Cs&... c) { visit1<Cs...>(r, c...); }); end_pass<Cs...>();
  begin_pass(); cr.each([&](const Cs&... c) { visit1<Cs...>(r, c...); }); end_pass<Cs...>();
  begin_pass(); for (auto ch : mv.chunks()) for (auto t : ch) tup(t); end_pass<Cs...>();
  begin_pass(); for (auto ch : std::as_const(cv).chunks()) for (auto t : ch) tup(t); end_pass<Cs...>();
  begin_pass(); for (auto ch : mv.chunks()) { auto b = ch.begin(), e = ch.end(); for (auto it = b; it != e;) { CHECKM((it <=> e) < 0, "an iterator is not before the end of its block"); auto old = it++; CHECKM(old != it && (old <=> it) < 0, "a post-increment returns the advanced iterator"); tup(*old); auto again = old; CHECKM(++again == it, "pre- and post-increment disagree"); } CHECKM(std::ranges::distance(b, e) == (long)std::ranges::distance(ch.begin(), ch.end()) && ch.begin() == b, "an iterator pass changes the block"); } end_pass<Cs...>();
  begin_pass(); for (auto t : r.view<const entity&, Cs&...>().each()) std::apply([&](const auto&... c) { visit1<entity, Cs...>(r, c...); }, t); end_pass<Cs...>();
  begin_pass(); for (auto t : cr.view<const Cs&..., const entity&>().each()) std::apply([&](const auto&... c) { visit1<Cs..., entity>(r, c...); }, t); end_pass<Cs...>();
  unsigned n = expected<Cs...>();
  begin_pass(); auto s = r.single<Cs&...>(); CHECKM(s.has_value() == (n > 0), "single() disagrees with the set of matching entities"); if (s) tup(*s);
  begin_pass(); auto cs = cr.single<const Cs&...>(); CHECKM(cs.has_value() == (n > 0), "single() const disagrees with the set of matching entities"); if (cs) tup(*cs);
  begin_pass(); auto vs = mv.single(); CHECKM(vs.has_value() == (n > 0), "single() disagrees with the set of matching entities"); if (vs) tup(*vs);
  if (par) { begin_pass(); mv.par_each([&](Cs&... c) { visit1<Cs...>(r, c...); }); end_pass<Cs...>(); begin_pass(); std::as_const(cv).par_each([&](const Cs&... c) { visit1<Cs...>(r, c...); }); end_pass<Cs...>(); }
}
static void create(registry& r, unsigned kind) {
  int a = fresh(cA), b = fresh(cB); entity h;
  switch (kind) {
  case 0: h = r.create<A>({a}); put(m.add(h), cA, a); break;
  case 1: { h = r.create<B, A>({b}, {a}); auto& x = m.add(h); put(x, cA, a); put(x, cB, b); break; }
  case 2: { h = r.create<E, B>({}, {b}); auto& x = m.add(h); put(x, cE, 0); put(x, cB, b); break; }
  case 3: { h = r.create<Big, A>(Big{b}, {a}); auto& x = m.add(h); put(x, cBig, b); put(x, cA, a); break; }
  case 4: h = r.create<Big>(Big{b}); put(m.add(h), cBig, b); break;
  default: h = r.create<>(); m.add(h); } }
static void step(registry& r, unsigned i, unsigned kinds, unsigned comps) {
  unsigned op = cs::choice("op", 5);
  if (op == 0) { unsigned k = cs::choice("kind", kinds); create(r, kinds == 2 ? 3 + k : k); return; }
  unsigned k = m.pick_alive("entity"); ment& e = m.e[k]; auto ref = r.get_entity(e.h);
  if (op == 1) { ref.destroy(); e.alive = false; }
  else if (op == 2) { int cand[4] = {cA, cB, cE, cBig}; int c = cand[cs::choice("component", comps)]; int v = fresh(c); on_type(c, [&]<class C>() { ref.template set<C>(make<C>(v)); }); put(e, c, v); }
  else if (op == 3) { int cand[4] = {cA, cB, cE, cBig}; int c = cand[cs::choice("component", comps)]; if (!e.has[c]) cs_stop(); on_type(c, [&]<class C>() { ref.template remove<C>(); }); e.has[c] = false; }
  else { auto n = ref.clone(); ment copy = e; ment& x = m.add(n); copy.h = x.h; x = copy; } }
static void writes(registry& r) { // through mutable queries, seen by reads
  int d = cs::i32("delta");
  for (auto [a] : r.view<A&>().each()) a.v ^= d;
  for (unsigned i = 0; i < m.n; i++) if (matches<A>(i)) m.e[i].val[cA] ^= d;
  r.each([&](const A& a, B& b) { b.v = a.v; });
  for (unsigned i = 0; i < m.n; i++) if (matches<A, B>(i)) m.e[i].val[cB] = m.e[i].val[cA];
  r.view<Big&, const entity&>().each([&](Big& b, const entity&) { b.v = d; });
  for (unsigned i = 0; i < m.n; i++) if (matches<Big>(i)) m.e[i].val[cBig] = d;
  if (auto s = r.single<E&, B&>()) { std::get<1>(*s).v = 77; unsigned k = owner<B>(r, std::get<1>(*s)); m.e[k].val[cB] = 77; }
  check_model(r, m); }
struct all { registry& r; view<A&> a; view<const A&> ca; view<A&, B&> ab; view<const A&, const B&> cab; view<E&, B&> eb; view<const E&, const B&> ceb; view<Big&> g; view<const Big&> cg; view<Big&, A&> ga; view<const Big&, const A&> cga;
  all(registry& r) : r(r), a(r), ca(r), ab(r), cab(r), eb(r), ceb(r), g(r), cg(r), ga(r), cga(r) {}
  void run(bool par) { queries<A>(r, a, ca, par); queries<A, B>(r, ab, cab, false); queries<E, B>(r, eb, ceb, false); queries<Big>(r, g, cg, par); queries<Big, A>(r, ga, cga, par);
    begin_pass(); for (auto [h] : std::as_const(r).view<const entity&>().each()) { unsigned i = index_of(h); seen[i]++; } end_pass<entity>();
    begin_pass(); for (auto [h, a, b, g] : r.view<const entity&, A&, const B&, Big&>().each()) visit1<entity, A, B, Big>(r, h, a, b, g); end_pass<A, B, Big>();
    CHECKM(r.size() == m.alive_count(), "size() differs from the number of live entities"); CHECKM(r.empty() == (m.alive_count() == 0), "empty() differs from the set of live entities"); } };
// small components, many archetypes
ENTRY(c05_small) { registry r; all q(r); unsigned pre = cs_param("pre", 2), steps = cs_param("steps", 2); for (unsigned i = 0; i < pre; i++) create(r, i % 3); q.run(false); for (unsigned i = 0; i < steps; i++) step(r, i, 3, 3); q.run(false); writes(r); q.run(false); cs_reach("end"); }
// storage spilling over blocks
ENTRY(c05_blocks) { registry r; all q(r); unsigned pre = cs_concretize(cs::choice("population", cs_param("max", 7) + 1)), steps = cs_param("steps", 2), mix = cs_param("mix", 0); for (unsigned i = 0; i < pre; i++) create(r, mix ? 3 + i % 2 : 3); q.run(false); for (unsigned i = 0; i < steps; i++) step(r, i, 2, 4); q.run(false); writes(r); q.run(false); cs_reach("end"); }
// the parallel form with a pool of one worker
ENTRY(c05_par) { registry r; all q(r); thread_pool tp(1); unsigned pre = cs_concretize(cs::choice("population", cs_param("max", 7) + 1)), steps = cs_param("steps", 1); for (unsigned i = 0; i < pre; i++) create(r, 3 + i % 2); for (unsigned i = 0; i < steps; i++) step(r, i, 2, 2); q.run(true); cs_reach("end"); }
// the parallel form on several workers: every schedule within the preemption bound
ENTRY(c05_threads) { registry r; view<Big&> g(r); view<const entity&, const Big&, const A&> ga(r); unsigned lo = cs_param("min", 3), pre = lo + cs_concretize(cs::choice("population", cs_param("max", 5) - lo + 1)), steps = cs_param("steps", 0); for (unsigned i = 0; i < pre; i++) create(r, cs_param("mix", 1) ? 3 + i % 2 : 3); for (unsigned i = 0; i < steps; i++) step(r, i, 2, 2);
  { thread_pool tp(cs_param("workers", 2)); begin_pass(); if (cs_param("form", 0)) { ga.par_each([&](const entity& h, const Big& b, const A& a) { unsigned i = index_of(h); cs_yield(); seen[i]++; same(r, i, b); same(r, i, a); }); end_pass<Big, A>(); } else { g.par_each([&](Big& b) { unsigned i = owner<Big>(r, b); same(r, i, b); cs_yield(); seen[i]++; b.v = m.e[i].val[cBig] + 1000; }); end_pass<Big>(); } }
  for (unsigned i = 0; i < m.n; i++) if (!cs_param("form", 0) && matches<Big>(i)) m.e[i].val[cBig] += 1000; check_model(r, m); cs_reach("end"); }
// C21: several threads use one registry without changing its structure
static view<A&>* va; static view<B&>* vb; static view<const A&, const entity&>* vca; static registry* G; static entity reserved[4][8]; static unsigned nreserved[4];
static void use(unsigned t, unsigned op, unsigned k) { registry& r = *G; const registry& c = r; const ment& e = m.e[k]; auto ref = r.get_entity(e.h); auto cref = c.get_entity(e.h);
  switch (op) {
  case 0: CHECKM(c.alive(e.h) == e.alive && ref.alive() == e.alive, "liveness differs from the reference"); if (e.alive) { CHECKM(c.has<A>(e.h) == e.has[cA] && cref.has<B>() == e.has[cB] && ref.has<Big>() == e.has[cBig], "an entity's component set differs from the reference"); if (e.has[cB]) CHECKM(cref.get<B>().v == e.val[cB], "a component's value differs from the reference"); } break;
  case 1: { unsigned n = 0; for (auto [a, h] : vca->each()) { n++; unsigned i = index_of(h); CHECKM(a.v == m.e[i].val[cA], "a query shows another value than was last given"); } CHECKM(n == expected<A>(), "a query misses a matching entity or visits one more than once");
    const auto& shared = *vca; n = 0; shared.each([&](const A& a, const entity& h) { n++; CHECKM(a.v == m.e[index_of(h)].val[cA], "a query shows another value than was last given"); }); CHECKM(n == expected<A>(), "a query misses a matching entity or visits one more than once");
    n = 0; for (auto ch : shared.chunks()) for (auto [a, h] : ch) n++; CHECKM(n == expected<A>(), "a query misses a matching entity or visits one more than once"); CHECKM(shared.single().has_value() == (n > 0), "single() disagrees with the set of matching entities"); break; }
  case 2: { unsigned n = 0; c.each([&](const B& b, const A&) { n++; }); CHECKM(n == (expected<A, B>()), "a query misses a matching entity or visits one more than once"); CHECKM((c.single<const Big&>().has_value() == (expected<Big>() > 0)), "single() disagrees with the set of matching entities"); CHECKM(c.size() == m.alive_count() && c.empty() == !m.alive_count(), "size() differs from the number of live entities"); break; }
  case 3: { if (!e.alive) break; unsigned n = 0; cref.visit([&](const component_meta& meta, const void* p) { n++; }); unsigned want = 0; for (int q = 0; q < NC; q++) want += e.has[q]; CHECKM(n == want, "a visit of an entity's components misses one or shows one it does not have"); bool thrown = false; try { (void)cref.get<Big2>(); } catch (const component_not_found&) { thrown = true; } CHECKM(thrown, "access to a component the entity does not have is not reported"); break; }
  case 4: for (unsigned i = 0; i < 2; i++) { entity h = r.reserve().get_entity(); reserved[t][nreserved[t]++] = h; } break;
  case 5: { bool thrown = false; try { (void)cref.get<A>(); } catch (const entity_not_found&) { thrown = true; } catch (const component_not_found&) { } CHECKM(thrown == !e.alive, "access to a dead entity is not reported"); break; }
  case 6: for (auto [a] : va->each()) a.v += 60; va->each([](A& a) { a.v += 40; }); break;
  default: r.each([](B& b) { b.v += 200; }); if (e.alive && e.has[cB]) ref.get<B>().v += 5; } }
ENTRY(c21_threads) { registry r; G = &r; view<A&> a(r); view<B&> b(r); view<const A&, const entity&> ca(r); va = &a; vb = &b; vca = &ca; unsigned pre = cs_param("pre", 4), threads = cs_param("threads", 2), each = cs_param("each", 1); for (unsigned i = 0; i < pre; i++) create(r, i % 4); if (cs::choice("destroyed", 2)) { r.destroy(m.e[0].h); m.e[0].alive = false; }
  unsigned op[4][2], k[4][2]; bool wa = false, wb = false, ra = false, rb = false; unsigned nb = 0, nk = 0;
  for (unsigned t = 0; t < threads; t++) for (unsigned i = 0; i < each; i++) { op[t][i] = cs_concretize(cs::choice("op", 8)); k[t][i] = op[t][i] == 1 || op[t][i] == 2 || op[t][i] == 4 || op[t][i] == 6 ? 0 : cs_concretize(cs::choice("entity", pre)); }
  // at most one thread writes a component type, and then no other thread accesses it
  auto uses = [&](unsigned o) { return o == 6 ? 2u : o == 7 ? 8u : o == 1 ? 1u : o == 0 ? 4u : o == 2 || o == 5 || o == 3 ? 5u : 0u; };   // 1 reads A, 2 writes A, 4 reads B, 8 writes B
  for (unsigned t = 0; t < threads; t++) for (unsigned u = 0; u < t; u++) { if (u && op[u][0] > op[t][0]) cs_stop(); for (unsigned i = 0; i < each; i++) for (unsigned j = 0; j < each; j++) { unsigned x = uses(op[t][i]), y = uses(op[u][j]); if (((x & 2) && (y & 3)) || ((y & 2) && (x & 3)) || ((x & 8) && (y & 12)) || ((y & 8) && (x & 12))) cs_stop(); } }
  if (each > 1) for (unsigned t = 0; t < threads; t++) { unsigned x = 0; for (unsigned i = 0; i < each; i++) x |= uses(op[t][i]); if (((x & 2) && (x & 1)) || ((x & 8) && (x & 4))) cs_stop(); }
  { std::thread th[4]; for (unsigned t = 1; t < threads; t++) th[t] = std::thread([&, t] { for (unsigned i = 0; i < each; i++) use(t, op[t][i], k[t][i]); }); for (unsigned i = 0; i < each; i++) use(0, op[0][i], k[0][i]); for (unsigned t = 1; t < threads; t++) th[t].join(); }
  for (unsigned t = 0; t < threads; t++) for (unsigned i = 0; i < each; i++) { if (op[t][i] == 6) for (unsigned j = 0; j < m.n; j++) if (matches<A>(j)) m.e[j].val[cA] += 100; if (op[t][i] == 7) { for (unsigned j = 0; j < m.n; j++) if (matches<B>(j)) m.e[j].val[cB] += 200; if (matches<B>(k[t][i])) m.e[k[t][i]].val[cB] += 5; } }
  r.sync(); for (unsigned t = 0; t < threads; t++) for (unsigned i = 0; i < nreserved[t]; i++) { CHECKM(r.alive(reserved[t][i]), "a reserved entity is not alive after synchronisation"); for (unsigned j = 0; j < m.n; j++) CHECKM(!(m.e[j].alive && m.e[j].h == reserved[t][i]), "a reserved handle is that of another entity"); for (unsigned u = 0; u <= t; u++) for (unsigned j = 0; j < (u == t ? i : nreserved[u]); j++) CHECKM(reserved[u][j] != reserved[t][i], "a handle was reserved twice"); }
  for (unsigned i = 0; i < m.n; i++) if (m.e[i].alive) for (int q : {cA, cB, cBig}) if (m.e[i].has[q]) on_type(q, [&]<class C>() { CHECKM(value(std::as_const(r).get_entity(m.e[i].h).get<C>()) == m.e[i].val[q], "a component's value differs from the reference"); });
  cs_reach("end"); }
