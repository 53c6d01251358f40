// C07: clone, copy and move between two registries, into new and into reserved entities.
#include "model.hpp"
static model<14> M[2]; static registry* R[2]; struct pend { entity h; placeholder_entity* p; };
alignas(8) static unsigned char phbuf[2][4][sizeof(placeholder_entity)]; static unsigned nph[2], uph[2]; static bool was_synced[2];
static placeholder_entity& ph(unsigned r, unsigned i) { return *reinterpret_cast<placeholder_entity*>(phbuf[r][i]); }
static void create(unsigned r, unsigned kind) { auto& m = M[r]; registry& g = *R[r]; int a = fresh(cA), b = fresh(cB); entity h; if (r && kind >= 3 && kind <= 4) kind = 7 - kind; /* the registries lay the same components out differently */ switch (kind) {
  case 0: h = g.create<A>({a}); put(m.add(h), cA, a); break; case 1: { h = r ? g.create<A, B>({a}, {b}) : g.create<B, A>({b}, {a}); auto& x = m.add(h); put(x, cA, a); put(x, cB, b); break; } case 2: { h = g.create<E, B>({}, {b}); auto& x = m.add(h); put(x, cE, 0); put(x, cB, b); break; }
  case 3: { h = g.create<Big, A>(Big{b}, {a}); auto& x = m.add(h); put(x, cBig, b); put(x, cA, a); break; } case 4: { h = g.create<A, Big>({a}, Big{b}); auto& x = m.add(h); put(x, cBig, b); put(x, cA, a); break; } default: h = g.create<>(); m.add(h); } }
static void verify() { for (unsigned r = 0; r < 2; r++) { check_model(*R[r], M[r]); check_views(*R[r], M[r]); } }
static void reserve(unsigned r) { if (nph[r] >= 4) cs_stop(); new (phbuf[r][nph[r]]) placeholder_entity(R[r]->reserve()); nph[r]++; }
static bool take(unsigned r, placeholder_entity*& p) { if (uph[r] >= nph[r]) return false; p = &ph(r, uph[r]++); return true; }
// the new entity is an equal, independent copy
static void landed(unsigned from, unsigned k, unsigned to, entity h, bool moved) { ment e = M[from].e[k]; ment& n = M[to].add(h); e.h = n.h; n = e; if (moved) M[from].e[k].alive = false; CHECKM(moved || !(from == to && h == M[from].e[k].h), "a copy is the same entity as its source"); }
static void poke(unsigned r, unsigned k) { ment& e = M[r].e[k]; if (!e.alive) return; auto ref = R[r]->get_entity(e.h); int v = fresh(cA); if (e.has[cA]) { ref.get<A>().v = v; e.val[cA] = v; } if (e.has[cBig]) { ref.get<Big>().v = v; e.val[cBig] = v; } if (e.has[cB]) { ref.set<B>(v); e.val[cB] = v; } }
static void step(unsigned i, unsigned kinds, unsigned base) {
  unsigned op = cs::choice("op", 9); unsigned from = cs_concretize(cs::choice("registry", 2)); registry& r = *R[from]; unsigned to = from ^ 1;
  if (op == 0) { create(from, base + cs::choice("kind", kinds)); return; } if (op == 1) { reserve(from); if (cs::choice("sync", 2)) R[from]->sync(); return; }
  unsigned k = cs_concretize(M[from].pick_alive("entity")); ment& e = M[from].e[k]; auto ref = r.get_entity(e.h); placeholder_entity* p = nullptr; ment before = e;
  switch (op) { case 2: ref.destroy(); e.alive = false; return; case 3: landed(from, k, from, ref.clone(), false); break; case 4: landed(from, k, to, i & 1 ? ref.copy(*R[to]) : std::as_const(r).get_entity(e.h).copy(*R[to]), false); break; case 5: landed(from, k, to, ref.move(*R[to]), true); break;
  case 6: if (!take(from, p)) cs_stop(); { entity h = ref.clone(*p); CHECKM(h == p->get_entity(), "a clone into a reserved entity is another entity"); landed(from, k, from, h, false); R[from]->sync(); } break;
  case 7: if (!take(to, p)) cs_stop(); { entity h = i & 1 ? ref.copy(*R[to], *p) : std::as_const(r).get_entity(e.h).copy(*R[to], *p); CHECKM(h == p->get_entity(), "a copy into a reserved entity is another entity"); landed(from, k, to, h, false); R[to]->sync(); } break;
  case 8: if (!take(to, p)) cs_stop(); { entity h = ref.move(*R[to], *p); CHECKM(h == p->get_entity(), "a move into a reserved entity is another entity"); landed(from, k, to, h, true); R[to]->sync(); } break; }
  verify(); if (M[from].e[k].alive) poke(from, k); }
static void history(unsigned base, unsigned kinds) { registry a, b; R[0] = &a; R[1] = &b; unsigned pre = cs_param("pre", 2), pre2 = cs_param("pre2", 1), rsv = cs_param("reserve", 1), steps = cs_param("steps", 2);
  for (unsigned i = 0; i < pre; i++) create(0, base + i % kinds); for (unsigned i = 0; i < pre2; i++) create(1, base); if (cs_param("dead", 1)) { create(0, base); a.destroy(M[0].e[M[0].n - 1].h); M[0].e[M[0].n - 1].alive = false; create(1, base); b.destroy(M[1].e[M[1].n - 1].h); M[1].e[M[1].n - 1].alive = false; }
  for (unsigned i = 0; i < rsv; i++) { reserve(0); reserve(1); }
  for (unsigned i = 0; i < steps; i++) { step(i, kinds, base); verify(); } create(0, base); create(1, base); verify(); cs_reach("end"); }
ENTRY(c07_small) { history(0, 3); }
ENTRY(c07_blocks) { history(3, 2); }
