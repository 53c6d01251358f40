// C01: handles are unique among live ones, stale handles stay dead, under any create/destroy/reserve/flush history.
#include "cs.hpp"
#include <co_ecs/co_ecs.hpp>
using namespace co_ecs;
struct tag {};
using H = detail::handle<tag>;
enum { DEAD, ALIVE, RESERVED };
template<class Hd> struct track {
  Hd all[16]; int st[16]; unsigned n = 0;
  void issued(Hd h, int s) {
    CHECKM(h.valid(), "an issued handle is the invalid handle");
    for (unsigned j = 0; j < n; j++) CHECKM(!(all[j] == h), "an issued handle equals an earlier handle");
    for (unsigned j = 0; j < n; j++) if (st[j]) CHECKM(all[j].id() != h.id(), "an issued handle shares its identifier with a live or reserved handle");
    all[n] = h; st[n++] = s; }
  void flushed() { for (unsigned j = 0; j < n; j++) if (st[j] == RESERVED) st[j] = ALIVE; }
  template<class F> void check(F alive) { for (unsigned j = 0; j < n; j++) { if (st[j] == ALIVE) CHECKM(alive(all[j]), "a live handle is reported dead"); if (st[j] == DEAD) CHECKM(!alive(all[j]), "a destroyed handle is reported alive"); } }
  template<class F> void probe(F alive) { // an arbitrary handle value
    uint32_t id = cs::u32("id"), gen = cs::u32("gen"); Hd any{id, gen}; bool known = false, stale = false;
    for (unsigned j = 0; j < n; j++) if (all[j].id() == id) { known = true; if (st[j] != DEAD && !(all[j] == any)) stale = true; }
    if (!known) CHECKM(!alive(any), "a handle whose identifier was never issued is reported alive");
    if (stale) CHECKM(!alive(any), "another generation of a live identifier is reported alive"); }
};
ENTRY(h_handle_pool) {
  detail::handle_pool<H> pool; track<H> t; const unsigned steps = (unsigned)cs_param("steps", 6);
  auto alive = [&](H h) { return pool.alive(h); };
  for (unsigned i = 0; i < steps; i++) {
    unsigned op = cs::choice("op", 4);
    if (op == 0) t.issued(pool.create(), ALIVE);
    else if (op == 1) t.issued(pool.reserve(), RESERVED);
    else if (op == 2) { pool.flush(); t.flushed(); }
    else { if (!t.n) cs_stop(); unsigned k = cs::choice("which", t.n); if (t.st[k] == RESERVED) cs_stop(); pool.recycle(t.all[k]); t.st[k] = DEAD; }
    t.check(alive);
  }
  t.probe(alive); cs_reach("end");
}
struct A { int v; };
// the same through the registry's public interface; destroying a stale handle must fail without effect
ENTRY(h_registry_handles) {
  registry r; track<entity> t; const unsigned steps = (unsigned)cs_param("steps", 5);
  auto alive = [&](entity h) { return r.alive(h) && r.get_entity(h).alive(); };
  for (unsigned i = 0; i < steps; i++) {
    unsigned op = cs::choice("op", 5);
    if (op == 0) t.issued(r.create<A>({(int)i}), ALIVE);
    else if (op == 1) { auto p = r.reserve(); t.issued(p.get_entity(), RESERVED); }
    else if (op == 2) { r.sync(); t.flushed(); }
    else if (op == 3) { if (!t.n) cs_stop(); unsigned k = cs::choice("which", t.n); if (t.st[k] == RESERVED) cs_stop();
      bool threw = false; try { r.destroy(t.all[k]); } catch (const entity_not_found&) { threw = true; } catch (const std::out_of_range&) { if (t.st[k] != ALIVE) CHECKM(false, "wrong exception"); cs_stop(); /* reserved entity without components */ }
      CHECKM(threw == (t.st[k] == DEAD), "destroying must fail exactly for dead handles"); t.st[k] = DEAD; }
    else { if (!t.n) cs_stop(); unsigned k = cs::choice("which", t.n); if (t.st[k] != ALIVE) cs_stop();
      try { entity c = r.get_entity(t.all[k]).clone(); t.issued(c, ALIVE); } catch (const std::out_of_range&) { cs_stop(); } }
    t.check(alive);
  }
  t.probe(alive); cs_reach("end");
}
