// C11 (and C10 end to end): every system of every stage exactly once per pass, in stage order, never next to a conflicting one.
#include "cs.hpp"
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/schedule.hpp>
#include <co_ecs/system/named_system.hpp>
using namespace co_ecs;
struct A { int v; }; struct B { int v; }; struct C { int v; };
static constexpr unsigned MAXS = 4, MAXN = 5;
// what a system of each kind may touch: 2 write, 1 read; index 3 is the registry itself
enum { NOTHING, REG, CREG, WA, RA, WB, CMD, RACMD, KINDS };
static const unsigned touch[KINDS][4] = { {}, { 2, 2, 2, 2 }, { 1, 1, 1, 1 }, { 2, 0, 0, 0 }, { 1, 0, 0, 0 }, { 0, 2, 0, 0 }, { 0, 0, 0, 1 }, { 1, 0, 0, 1 } };
static bool clash(unsigned x, unsigned y) { for (unsigned i = 0; i < 4; i++) if ((touch[x][i] == 2 && touch[y][i]) || (touch[y][i] == 2 && touch[x][i])) return true; return false; }
struct info { unsigned kind; bool main; };
static info sys[MAXS][MAXN]; static unsigned count[MAXS], ran[MAXS][MAXN]; static bool active[MAXS][MAXN]; static unsigned nstages, created, creators; static bool checks_overlap, in_run; static registry* G; static unsigned reg_before;
static int main_thread_id; static thread_local int here;
static void enter(unsigned s, unsigned i) { cs::quiet q;
  CHECKM(in_run, "a system runs outside of a pass"); CHECKM(ran[s][i] == 0, "a system ran more than once in a pass"); ran[s][i]++;
  for (unsigned p = 0; p < nstages; p++) for (unsigned j = 0; j < count[p]; j++) { if (p < s) { CHECKM(ran[p][j] == 1 && !active[p][j], "a stage started before the stage before it was complete"); } else if (p > s) CHECKM(ran[p][j] == 0, "a later stage started before this one was complete"); }
  for (unsigned j = 0; j < count[s]; j++) if (active[s][j] && j != i) CHECKM(!clash(sys[s][i].kind, sys[s][j].kind), "two systems with conflicting accesses run at the same time");
  if (sys[s][i].main) CHECKM(here == 1, "a main thread system runs on another thread");
  active[s][i] = true; if (checks_overlap) cs_yield(); }
static void leave(unsigned s, unsigned i) { cs::quiet q; active[s][i] = false; }
static void add(stage& st, unsigned s, unsigned i, unsigned kind, bool main) {
  sys[s][i] = info{ kind, main }; if (kind == CMD || kind == RACMD) creators++;
  auto put = [&](auto f) { if (main) st.add_system(main_thread_execution_policy, std::move(f)); else st.add_system(std::move(f)); };
  switch (kind) {
  case NOTHING: put([s, i]() { enter(s, i); leave(s, i); }); break;
  case REG: put([s, i](registry& r) { enter(s, i); CHECKM(&r == G, "a system is given another registry"); r.each([](A& a) { a.v++; }); leave(s, i); }); break;
  case CREG: put([s, i](const registry& r) { enter(s, i); CHECKM(&r == G, "a system is given another registry"); unsigned n = 0; r.each([&](const A&) { n++; }); CHECKM(n == reg_before, "a stage observes commands of the same pass"); leave(s, i); }); break;
  case WA: put([s, i](view<A&> v) { enter(s, i); v.each([](A& a) { a.v++; }); leave(s, i); }); break;
  case RA: put([s, i](view<const A&, const entity&> v) { enter(s, i); unsigned n = 0; v.each([&](const A&, const entity&) { n++; }); CHECKM(n == reg_before, "a stage observes commands of the same pass"); leave(s, i); }); break;
  case WB: put([s, i](view<B&> v) { enter(s, i); v.each([](B& b) { b.v++; }); leave(s, i); }); break;
  case CMD: put([s, i](command_writer c) { enter(s, i); c.create<A>({ 7 }); leave(s, i); }); break;
  default: put([s, i](command_writer c, view<const A&> v) { enter(s, i); unsigned n = 0; v.each([&](const A&) { n++; }); c.create<A, B>({ 7 }, { 8 }); CHECKM(n == reg_before, "a stage observes commands of the same pass"); leave(s, i); }); } }
static unsigned population(registry& r) { unsigned n = 0; std::as_const(r).each([&](const A&) { n++; }); return n; }
static void run(schedule_executor& ex, registry& r) { { cs::quiet q; for (unsigned s = 0; s < nstages; s++) for (unsigned i = 0; i < count[s]; i++) ran[s][i] = 0; in_run = true; } reg_before = population(r); ex.run_once(); cs::quiet q; in_run = false;
  for (unsigned s = 0; s < nstages; s++) for (unsigned i = 0; i < count[s]; i++) { CHECKM(ran[s][i] == 1, "a system did not run exactly once in a pass"); CHECKM(!active[s][i], "a pass returned before a system was done"); }
  CHECKM(population(r) == reg_before + creators, "commands issued during a pass are not all applied when it returns"); }
static unsigned init_runs; static bool init_done;
static unsigned pick_kind() { unsigned mask = cs_param("kmask", 255), n = 0; for (unsigned k = 0; k < KINDS; k++) n += mask >> k & 1; unsigned c = cs_concretize(cs::choice("kind", n)), k = 0; for (;; k++) if (mask >> k & 1) { if (!c) return k; c--; } }
static void build(schedule& sch, bool mains) {
  nstages = cs_param("stages", 2); for (unsigned s = 0; s < nstages; s++) { stage& st = s & 1 ? sch.begin_stage("named") : sch.begin_stage(); count[s] = cs_param("exact", 0) ? cs_param("systems", 2) : cs_concretize(cs::choice("systems", cs_param("systems", 2) + 1));
    for (unsigned i = 0; i < count[s]; i++) { unsigned k = pick_kind(); add(st, s, i, k, mains && cs::choice("main thread", 2)); } CHECKM(&st.end_stage() == &sch, "end_stage leads to another schedule"); } }
static void scenario(thread_pool& pool) { here = 1; registry r; G = &r; r.create<A>({ 1 }); r.create<A, B>({ 1 }, { 2 }); schedule sch; build(sch, cs_param("mains", 1));
  unsigned inits = cs_param("inits", 1); for (unsigned i = 0; i < inits; i++) sch.add_init_system([](registry& g, command_writer c) { CHECKM(&g == G, "a system is given another registry"); init_runs++; c.create<A>({ 5 }); });
  unsigned execs = cs_param("executors", 1); for (unsigned e = 0; e < execs; e++) { unsigned p = population(r), i0 = init_runs; auto ex = sch.create_executor(r); CHECKM(init_runs == i0 + inits, "initialisation systems did not run exactly once"); CHECKM(population(r) == p + inits, "commands of initialisation systems are not applied before the first pass");
    unsigned runs = cs_param("runs", 2); for (unsigned i = 0; i < runs; i++) run(*ex, r); CHECKM(init_runs == i0 + inits, "initialisation systems ran again"); }
  cs_reach("end"); }
ENTRY(c11_single) { thread_pool pool{ 1 }; scenario(pool); }
// several workers: every interleaving within the preemption bound
ENTRY(c11_threads) { checks_overlap = true; thread_pool pool{ cs_param("workers", 2) }; scenario(pool); }
