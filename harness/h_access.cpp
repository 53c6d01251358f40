// C10: which systems may share a parallel batch.
#include "cs.hpp"
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/schedule.hpp>
using namespace co_ecs;
struct A { int v; }; struct B { int v; }; struct D { int v; };
// --- access patterns built from arbitrary parts
// 0 nothing, 1 read, 2 write
struct acc { unsigned reg; unsigned c[4]; };
static unsigned mx(unsigned a, unsigned b) { return a > b ? a : b; }
static access_pattern_t pattern(acc& t, unsigned comps, unsigned parts) {
  t = acc{}; access_pattern_t p; const component_id_t ids[4] = { 0, 1, 70, 7 };
  for (unsigned i = 0; i < parts; i++) { unsigned w = cs::choice("part", 1 + comps), a = cs::choice("access", 3); cs_concretize(w); cs_concretize(a);
    if (w == 0) { if (cs_param("reg", 1) == 0) cs_stop(); p &= access_pattern_t(access_type(a)); t.reg = mx(t.reg, a); } else { if (a == 0) cs_stop(); access_pattern_t q(access_type(a), component_meta{ ids[w - 1], nullptr }); if (i & 1) p = p & q; else p &= q; t.c[w - 1] = mx(t.c[w - 1], a); } }
  return p; }
// one may write what the other may read or write
static bool clash1(const acc& x, const acc& y) { bool y_any = y.reg != 0; for (unsigned v : y.c) y_any |= v != 0; if (x.reg == 2) return y_any; for (unsigned i = 0; i < 4; i++) if (x.c[i] == 2 && (y.c[i] != 0 || y.reg != 0)) return true; return false; }
static bool clash(const acc& x, const acc& y) { return clash1(x, y) || clash1(y, x); }
static acc join(const acc& x, const acc& y) { acc r; r.reg = mx(x.reg, y.reg); for (unsigned i = 0; i < 4; i++) r.c[i] = mx(x.c[i], y.c[i]); return r; }
static void compare(const access_pattern_t& p, const acc& x, const access_pattern_t& q, const acc& y) {
  bool ab = p.allows(q), ba = q.allows(p); CHECKM(ab == ba, "the decision depends on the order of the two systems"); CHECKM(!(ab && clash(x, y)), "conflicting accesses are allowed to run at the same time"); }
static void truth(const access_pattern_t& p, const acc& x) { const component_id_t ids[4] = { 0, 1, 70, 7 }; for (unsigned i = 0; i < 4; i++) { CHECKM(p.writes(ids[i]) == (x.c[i] == 2 || x.reg == 2), "a pattern misstates what it writes"); CHECKM(p.reads(ids[i]) == (x.c[i] != 0 || x.reg != 0), "a pattern misstates what it reads"); } CHECKM(p.writes_all() == (x.reg == 2), "a pattern misstates whether it writes the registry"); CHECKM(p.reads_all() == (x.reg != 0), "a pattern misstates whether it reads the registry"); }
ENTRY(c10_patterns) { unsigned comps = cs_param("comps", 2), parts = cs_param("parts", 2); acc x, y; access_pattern_t p = pattern(x, comps, parts), q = pattern(y, comps, parts); truth(p, x); truth(q, y); compare(p, x, q, y); cs_reach("end"); }
// a batch accumulates the accesses of its members
ENTRY(c10_batch) { unsigned comps = cs_param("comps", 2), n = cs_param("members", 3); acc t{}, x; access_pattern_t p; for (unsigned i = 0; i < n; i++) { access_pattern_t q = pattern(x, comps, 1); if (i) compare(p, t, q, x); p &= q; t = join(t, x); truth(p, t); } cs_reach("end"); }
// --- real systems: what a signature lets a system do, against what its executor declares
template<class F> static access_pattern_t of(registry& r, F f, acc& t, acc v) { t = v; co_ecs::system<F> s(f); auto e = s.create_executor(r, nullptr); return e->access_pattern(); }
// index of A B D and of the entity handles in acc::c
static access_pattern_t real(registry& r, unsigned k, acc& t) { switch (k) {
  case 0: return of(r, [](registry&) {}, t, acc{ 2, {} }); case 1: return of(r, [](const registry&) {}, t, acc{ 1, {} });
  case 2: return of(r, [](view<A&>) {}, t, acc{ 0, { 2 } }); case 3: return of(r, [](view<const A&>) {}, t, acc{ 0, { 1 } }); case 4: return of(r, [](view<const A&, B&>) {}, t, acc{ 0, { 1, 2 } });
  case 5: return of(r, [](view<const A&>, view<D&>) {}, t, acc{ 0, { 1, 0, 2 } }); case 6: return of(r, [](view<const entity&, const B&>) {}, t, acc{ 0, { 0, 1, 0, 1 } }); case 7: return of(r, [](view<const A&>, view<A&>) {}, t, acc{ 0, { 2 } });
  case 8: return of(r, [](view<B&>, const registry&) {}, t, acc{ 1, { 0, 2 } }); case 9: return of(r, [](view<D&>, registry&) {}, t, acc{ 2, { 0, 0, 2 } }); case 10: return of(r, [](command_writer, view<const D&>) {}, t, acc{ 0, { 0, 0, 1 } });
  case 11: return of(r, [](command_writer) {}, t, acc{ 0, { 0, 0, 0, 1 } }); /* reserves handles in the registry */ default: return of(r, []() {}, t, acc{}); } }
ENTRY(c10_systems) { registry r; acc x, y; unsigned i = cs_concretize(cs::choice("first", 13)), j = cs_concretize(cs::choice("second", 13)); access_pattern_t p = real(r, i, x), q = real(r, j, y); compare(p, x, q, y);
  acc z; access_pattern_t b = p; b &= real(r, cs_concretize(cs::choice("batched", 13)), z); compare(b, join(x, z), q, y); cs_reach("end"); }
