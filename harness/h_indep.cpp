// C22: registries are independent of each other, also when different threads use them.
#include "model.hpp"
#include <optional>
#include <thread>
struct world { registry r; model<12> m; view<A&> va{ r }; view<const B&, const entity&> vb{ r }; view<const Big&> vg{ r }; int next;
  explicit world(int base) : next(base) {}
  void create(unsigned kind) { int a = next++, b = next++; entity h; switch (kind) {
    case 0: h = r.create<A, B>({a}, {b}); { auto& x = m.add(h); put(x, cA, a); put(x, cB, b); } break;
    case 1: h = r.create<B>({b}); put(m.add(h), cB, b); break;
    case 2: h = r.create<Big, A>(Big{b}, {a}); { auto& x = m.add(h); put(x, cBig, b); put(x, cA, a); } break;
    default: h = r.create<>(); m.add(h); } }
  // false: the operation does not apply to entity k
  bool run(unsigned op, unsigned k) { if (op < 4) { create(op); return true; } if (k >= m.n) return false; ment& e = m.e[k]; auto ref = r.get_entity(e.h);
    if (op == 9) { bool thrown = false; try { ref.set<A>(1); if (e.alive) put(e, cA, 1); } catch (const entity_not_found&) { thrown = true; } CHECKM(thrown == !e.alive, "access to a dead entity is not reported"); thrown = false; try { (void)r.get_entity(e.h).get<Big2>(); } catch (const std::exception&) { thrown = true; } CHECKM(thrown, "access to a component the entity does not have is not reported"); return true; }
    if (op == 10) { int n = 0, from = next; for (auto [a] : va.each()) a.v = from + n++; next += 16; for (unsigned i = 0; i < m.n; i++) if (m.e[i].alive && m.e[i].has[cA]) { int v = std::as_const(r).get_entity(m.e[i].h).get<A>().v; CHECKM(v >= from && v < from + 16, "a write through a query is not seen"); m.e[i].val[cA] = v; n--; } CHECKM(n == 0, "a query misses a matching entity or visits one more than once"); return true; }
    if (!e.alive) return false;
    switch (op) {
    case 4: { int v = next++; ref.set<B>(v); put(e, cB, v); return true; }
    case 5: if (!e.has[cA]) return false; ref.remove<A>(); e.has[cA] = false; return true;
    case 6: ref.destroy(); e.alive = false; return true;
    case 7: { auto c = ref.clone(); ment copy = e; ment& x = m.add(c); copy.h = x.h; x = copy; return true; }
    default: { auto p = r.reserve(); r.sync(); auto c = ref.clone(p); ment copy = e; ment& x = m.add(c); copy.h = x.h; x = copy; CHECKM(x.h == p.get_entity(), "a copy has another handle than the reserved one"); return true; } } }
  void check() { check_model(r, m); check_views(r, m); unsigned n = 0, want = 0; for (auto [b, h] : vb.each()) { bool known = false; for (unsigned i = 0; i < m.n; i++) known |= m.e[i].alive && m.e[i].h == h && m.e[i].has[cB] && m.e[i].val[cB] == b.v; CHECKM(known, "a query shows an entity or a value of another registry"); n++; } for (unsigned i = 0; i < m.n; i++) want += m.e[i].alive && m.e[i].has[cB]; CHECKM(n == want, "a query misses a matching entity or visits one more than once"); check_no_stray(r, m, 8); } };
static const unsigned OPS = 11;
static unsigned ops(unsigned mask) { unsigned o = cs_concretize(cs::choice("op", OPS)); if (!(mask >> o & 1)) cs_stop(); return o; }
static bool takes(unsigned op) { return op >= 4 && op != 10; }
// any order of operations on two registries
ENTRY(c22_interleaved) { world w[2] = { world(cs::i32("base") & 0xffff), world(0x100000) }; unsigned pre = cs_param("pre", 1), steps = cs_param("steps", 3), mask = cs_param("omask", 2047); for (unsigned i = 0; i < pre; i++) { w[0].create(i); w[1].create((i + 1) % 4); }
  for (unsigned i = 0; i < steps; i++) { world& x = w[cs_concretize(cs::choice("registry", 2))]; unsigned o = ops(mask), k = takes(o) ? cs_concretize(x.m.pick("entity")) : 0; if (!x.run(o, k)) cs_stop(); w[0].check(); w[1].check(); } cs_reach("end"); }
// registries come and go, in the place in memory of earlier ones
ENTRY(c22_lifetimes) { std::optional<world> a, b; a.emplace(0x1000); unsigned pre = cs_param("pre", 2), steps = cs_param("steps", 1), rounds = cs_param("rounds", 1); if (cs::choice("two at once", 2)) b.emplace(0x100000); for (unsigned i = 0; i < pre; i++) { a->create(i); if (b) b->create((i + 1) % 4); }
  auto some = [&](world& w) { for (unsigned i = 0; i < steps; i++) { unsigned o = ops(2047), k = takes(o) ? cs_concretize(w.m.pick("entity")) : 0; if (!w.run(o, k)) cs_stop(); w.check(); if (a) a->check(); if (b) b->check(); } };
  for (unsigned i = 0; i < rounds; i++) { some(*a); a.reset(); if (b) b->check(); if (cs::choice("other components", 2)) { a.emplace(0x200000 + i * 0x10000); a->create(3); a->create(1); a->create(2); a->create(0); } else { a.emplace(0x200000 + i * 0x10000); for (unsigned j = 0; j < pre; j++) a->create(j); } a->check(); if (b) b->check(); }
  some(*a); a.reset(); if (b) b->check(); cs_reach("end"); }
// each thread with a registry of its own: no data race, and the results of a thread alone
ENTRY(c22_threads) { unsigned pre = cs_param("pre", 2), each = cs_param("each", 1), threads = cs_param("threads", 2), mask = cs_param("omask", 2047); unsigned o[3][3], k[3][3]; for (unsigned t = 0; t < threads; t++) for (unsigned i = 0; i < each; i++) { o[t][i] = ops(mask); k[t][i] = takes(o[t][i]) ? cs_concretize(cs::choice("entity", pre)) : 0; }
  for (unsigned t = 1; t < threads; t++) if (o[t][0] < o[t - 1][0]) cs_stop();
  auto life = [&](unsigned t) { world w(0x10000 * int(t + 1)); for (unsigned i = 0; i < pre; i++) w.create((t + i) % 4); w.check(); for (unsigned i = 0; i < each; i++) w.run(o[t][i], k[t][i]); w.check(); };
  { std::thread th[3]; for (unsigned t = 1; t < threads; t++) th[t] = std::thread(life, t); life(0); for (unsigned t = 1; t < threads; t++) th[t].join(); } cs_reach("end"); }
