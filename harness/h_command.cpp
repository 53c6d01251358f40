// C08: commands take effect exactly once, in order, at the next flush of their registry.
#include "tracked.hpp"
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/command.hpp>
#include <memory>
#include <thread>
#include <vector>
using namespace co_ecs;
struct P : Tracked { using Tracked::Tracked; }; struct Q : Tracked { using Tracked::Tracked; };
struct L : Tracked { using Tracked::Tracked; char pad[7000]; L(int v) : Tracked(v) {} L(const L& o) : Tracked(o) {} L(L&& o) noexcept : Tracked(std::move(o)) {} L& operator=(const L& o) { Tracked::operator=(o); return *this; } L& operator=(L&& o) noexcept { Tracked::operator=(std::move(o)); return *this; } };
struct ent { entity h; bool alive, has[3]; int val[3]; };
struct world { ent e[14]; unsigned n = 0; };
static world now[2], next[2]; static registry* R[2];  // what holds, and what holds after the next flush
static ent& add(world& w, entity h) { ent& e = w.e[w.n++]; e = ent{}; e.h = h; e.alive = true; return e; }
template<class F> static void on(int c, F f) { switch (c) { case 0: f.template operator()<P>(); break; case 1: f.template operator()<Q>(); break; default: f.template operator()<L>(); } }
static void verify(unsigned r, const world& w) { registry& g = *R[r]; unsigned alive = 0, seen = 0, all = 0;
  for (unsigned i = 0; i < w.n; i++) { const ent& e = w.e[i]; if (!e.alive) { CHECKM(!g.alive(e.h), "a destroyed entity is alive"); continue; } alive++; CHECKM(g.alive(e.h), "an entity that was created is not alive"); auto ref = g.get_entity(e.h);
    for (int c = 0; c < 3; c++) on(c, [&]<class C>() { CHECKM(ref.template has<C>() == e.has[c], "an entity's components differ from those given to it"); if (e.has[c]) CHECKM(ref.template get<C>().get() == e.val[c], "a component's value differs from the one last given"); }); seen += e.has[0]; all += e.has[0] && e.has[1]; }
  CHECKM(g.size() == alive, "the number of entities differs from those created and not destroyed");
  unsigned k = 0; std::as_const(g).each([&](const entity& h, const P& p) { k++; bool known = false; for (unsigned i = 0; i < w.n; i++) known |= w.e[i].alive && w.e[i].h == h && w.e[i].has[0] && w.e[i].val[0] == p.get(); CHECKM(known, "a query shows an entity or value that was not given"); }); CHECKM(k == seen, "a query misses an entity"); 
  k = 0; std::as_const(g).each([&](const P&, const Q&) { k++; }); CHECKM(k == all, "a query misses an entity"); }
static long held(const world& w) { long n = 0; for (unsigned i = 0; i < w.n; i++) if (w.e[i].alive) for (int c = 0; c < 3; c++) n += w.e[i].has[c]; return n; }
static thread_local world* mine;   // what a recording thread of c08_concurrent leads to
static unsigned nreg = 1;
static void unchanged() { for (unsigned r = 0; r < nreg; r++) verify(r, now[r]); }
static void flush(unsigned r) { command_buffer::flush(*R[r]); now[r] = next[r]; for (unsigned q = 0; q < nreg; q++) verify(q, now[q]); }
static void released() { long n = 0; for (unsigned r = 0; r < nreg; r++) n += held(now[r]); CHECKM(g_live == n, "staged components are left after everything was flushed"); }
// one recorded command on registry r; own: only entities [own, ...) of the model are touched
static void record(unsigned r, int v, unsigned own = 0, bool zero = false) { registry& g = *R[r]; command_writer cmd{ g }; world& w = mine ? *mine : next[r]; unsigned mask = cs_param("omask", 511), op = cs_concretize(cs::choice("op", 9)); if (!(mask >> op & 1)) cs_stop();
  switch (op) { case 0: { entity h = cmd.create<P>(P(v)); auto& e = add(w, h); e.has[0] = 1; e.val[0] = v; return; } case 1: { entity h = cmd.create<Q, L>(Q(v + 1), L(v)); auto& e = add(w, h); e.has[1] = e.has[2] = 1; e.val[1] = v + 1; e.val[2] = v; return; } 
    case 2: { entity h = cmd.create<Q>(Q(v)).set<P>(v + 1); auto& e = add(w, h); e.has[1] = e.has[0] = 1; e.val[1] = v; e.val[0] = v + 1; return; } }
  if (w.n + zero <= own) cs_stop(); unsigned k = cs_concretize(cs::choice("entity", w.n - own + zero)); k = zero ? (k ? own + k - 1 : 0) : own + k; ent& e = w.e[k]; if (!e.alive) cs_stop(); auto ref = cmd.get_entity(e.h);
  switch (op) { case 3: case 4: { int c = cs::choice("component", 3); on(c, [&]<class C>() { if (op == 3) ref.template set<C>(v); else { C x(v); ref.template set<C>(x).template set<C>(v + 1); } }); e.has[c] = 1; e.val[c] = v + (op == 4); return; }
    case 5: { int c = cs::choice("component", 3); on(c, [&]<class C>() { ref.template remove<C>(); }); e.has[c] = 0; return; } case 6: if (v & 1) cmd.destroy(e.h); else ref.destroy(); e.alive = false; return;
    case 7: { entity h = ref.clone(); ent c = e; ent& n = add(w, h); c.h = n.h; n = c; return; } case 8: { entity h = ref.clone().set<Q>(v); ent c = e; ent& n = add(w, h); c.h = n.h; n = c; n.has[1] = 1; n.val[1] = v; return; } } }
static void direct(unsigned r, unsigned i, unsigned kind) { registry& g = *R[r]; if (kind == 2) { entity h = g.create<P>(P(5)); g.get_entity(h).destroy(); auto& e = add(now[r], h); e.alive = false; } else if (kind) { entity h = g.create<P, Q>(P(10 * i), Q(10 * i + 1)); auto& e = add(now[r], h); e.has[0] = e.has[1] = 1; e.val[0] = 10 * i; e.val[1] = 10 * i + 1; } else { entity h = g.create<P>(P(10 * i)); auto& e = add(now[r], h); e.has[0] = 1; e.val[0] = 10 * i; } next[r] = now[r]; }
struct scope { std::unique_ptr<registry> a{ std::make_unique<registry>() }, b{ std::make_unique<registry>() }; long base; scope() { R[0] = a.get(); R[1] = b.get(); } ~scope() { a.reset(); b.reset(); CHECKM(g_live == 0, "components left undestroyed after their registry is gone"); } };
// commands of one thread, several flushes
ENTRY(c08_history) { scope s; unsigned pre = cs_param("pre", 2), steps = cs_param("steps", 2), rounds = cs_param("rounds", 2); for (unsigned i = 0; i < pre; i++) direct(0, i, i % 3);
  for (unsigned q = 0; q < rounds; q++) { unsigned n = q ? cs_param("later", 1) : steps; for (unsigned i = 0; i < n; i++) { record(0, 100 * (q + 1) + 10 * i); unchanged(); } flush(0); released(); flush(0); released(); if (q == 0) direct(0, 7, cs_param("between", 1)); }
  cs_reach("end"); }
// two registries: a flush applies only what was recorded for it
ENTRY(c08_registries) { scope s; nreg = 2; direct(0, 1, 1); direct(1, 2, 0); unsigned n = cs_param("steps", 2); for (unsigned i = 0; i < n; i++) { record(cs_concretize(cs::choice("registry", 2)), 100 + 10 * i); unchanged(); } unsigned f = cs_concretize(cs::choice("flushed first", 2)); flush(f); unchanged(); flush(f ^ 1); released(); flush(f); released(); cs_reach("end"); }
// commands of a thread that has ended, before or after commands of this thread; the second thread touches only its own entities
ENTRY(c08_threads) { scope s; unsigned a = cs_param("mine", 1), b = cs_param("theirs", 1); direct(0, 0, 1); if (cs::choice("buffer exists", 2)) { command_writer w{ *R[0] }; (void)w; }
  bool first = cs::choice("they record first", 2); auto mine = [&] { unsigned own = next[0].n; for (unsigned i = 0; i < a; i++) record(0, 100 + 10 * i, own, true); }; auto theirs = [&] { unsigned own = next[0].n; { command_writer cmd{ *R[0] }; entity h = cmd.create<Q>(Q(50)); auto& e = add(next[0], h); e.has[1] = 1; e.val[1] = 50; } for (unsigned i = 0; i < b; i++) record(0, 200 + 10 * i, own); };
  unsigned threads = cs_param("threads", 1); if (!first) mine(); for (unsigned t = 0; t < threads; t++) { std::thread th(theirs); th.join(); unchanged(); if (cs::choice("flush between", 2)) flush(0); } if (first && next[0].e[0].alive) mine(); unchanged(); flush(0); released(); flush(0); released();
  { std::thread th(theirs); th.join(); } flush(0); released(); cs_reach("end"); }
// a failing command reports the exception a direct call would, and every other command still takes effect exactly once
ENTRY(c08_failing) { scope s; direct(0, 0, 1); direct(0, 1, 0); entity dead = R[0]->create<P>(P(3)); R[0]->get_entity(dead).destroy(); next[0] = now[0]; record(0, 100); { command_writer cmd{ *R[0] }; auto ref = cmd.get_entity(dead); switch (cs::choice("failing", 3)) { case 0: ref.set<P>(1); break; case 1: ref.remove<Q>(); break; default: ref.destroy(); } } record(0, 200);
  bool threw = false; try { command_buffer::flush(*R[0]); } catch (const entity_not_found&) { threw = true; } CHECKM(threw, "a command on a dead entity is not reported"); bool again = false; try { command_buffer::flush(*R[0]); } catch (...) { again = true; } CHECKM(!again, "a failed command is executed again"); now[0] = next[0]; verify(0, now[0]); released(); cs_reach("end"); }
// threads that record at the same time, each on its own entities; the flush comes after they ended (or, for this thread, after its last command)
ENTRY(c08_concurrent) { scope s; unsigned threads = cs_param("threads", 1), each = cs_param("each", 1); world w[3]; for (unsigned t = 0; t <= threads; t++) { direct(0, t, 1); w[t].e[w[t].n++] = now[0].e[t]; } if (cs::choice("buffer exists", 2)) { command_writer c{ *R[0] }; (void)c; }
  { std::vector<std::thread> ts; for (unsigned t = 1; t <= threads; t++) ts.emplace_back([&, t] { mine = &w[t]; for (unsigned i = 0; i < each; i++) record(0, 100 * t + 10 * i); });
    mine = &w[0]; for (unsigned i = 0; i < each; i++) record(0, 500 + 10 * i); for (auto& t : ts) t.join(); mine = nullptr; }
  unchanged(); next[0].n = 0; for (unsigned t = 0; t <= threads; t++) for (unsigned i = 0; i < w[t].n; i++) next[0].e[next[0].n++] = w[t].e[i]; flush(0); released(); flush(0); released(); cs_reach("end"); }
