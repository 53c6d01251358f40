// C20: component identifiers, metadata and component sets.
#include "tracked.hpp"
#include <co_ecs/co_ecs.hpp>
#include <string>
#include <utility>
using namespace co_ecs;
template<int N> struct T { char c[N + 1]; };
template<int N> struct Over { alignas(1 << N) char c[3]; };
static component_id_t ids[80];
template<int... I> static void fill(std::integer_sequence<int, I...>) { ((ids[I] = component_id::value<T<I>>), ...); }
static void fill_ids() { fill(std::make_integer_sequence<int, 80>{}); }
template<int... I> static bool has_type(const component_set& s, unsigned k, std::integer_sequence<int, I...>) { bool r = false; ((k == I ? (void)(r = s.contains<T<I>>()) : void()), ...); return r; }
// ids of distinct types are distinct and dense, those of a type always the same
ENTRY(c20_ids) {
  fill_ids(); unsigned i = cs_concretize(cs::choice("type", 80)), j = cs_concretize(cs::choice("other type", 80));
  CHECKM((ids[i] == ids[j]) == (i == j), "component identifiers do not distinguish types"); CHECKM(ids[i] != invalid_component_id, "a type has the invalid identifier");
  CHECKM(component_id::value<entity> != ids[i], "an entity handle and a component share an identifier"); cs_reach("end"); }
struct family;
// identifiers handed out in any order of first use, through several growth steps of the name map
ENTRY(c20_order) {
  using reg = detail::type_registry<family, uint32_t>; static const char* names[12] = {"a", "b", "ab", "ba", "a1", "a11", "co::x", "co::y", "", "x<int>", "x<int >", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"}; static std::string bulk[60]; static uint32_t bid[60]; uint32_t id[12]; bool used[12] = {};
  unsigned n = cs_param("first", 3), nb = cs_concretize(cs::choice("bulk", 3)) * 30; for (unsigned i = 0; i < nb; i++) { bulk[i] = "t" + std::to_string(i); bid[i] = reg::id(bulk[i]); }
  for (unsigned i = 0; i < n; i++) { unsigned k = cs_concretize(cs::choice("name", 12)); std::string own(names[k]); static std::string keep[8]; keep[i] = own; uint32_t x = reg::id(keep[i]); if (used[k]) CHECKM(x == id[k], "a type's identifier changed"); id[k] = x; used[k] = true; }
  for (unsigned a = 0; a < 12; a++) if (used[a]) { for (unsigned b = 0; b < a; b++) if (used[b]) CHECKM(id[a] != id[b], "two types share an identifier"); for (unsigned b = 0; b < nb; b++) CHECKM(id[a] != bid[b], "two types share an identifier"); }
  for (unsigned b = 0; b < nb; b++) { CHECKM(reg::id(bulk[b]) == bid[b], "a type's identifier changed"); for (unsigned c = 0; c < b; c++) CHECKM(bid[b] != bid[c], "two types share an identifier"); }
  for (unsigned a = 0; a < 12; a++) if (used[a]) CHECKM(reg::id(names[a]) == id[a], "a type's identifier changed"); cs_reach("end"); }
// metadata: size, alignment and the operations of the very type
template<class C> static void meta_of(const component_meta& m) { CHECKM(m.id == component_id::value<C>, "metadata carries another identifier"); CHECKM(m.type == type_meta::of<C>(), "metadata is not unique for its type"); CHECKM(m.type->size == sizeof(C) && m.type->align == alignof(C), "recorded size or alignment differs from the type's"); CHECKM(m.type->name == type_name<C>(), "recorded name differs from the type's"); }
struct Tr : Tracked { using Tracked::Tracked; char tag = 7; }; struct Tr2 : Tracked { using Tracked::Tracked; char more[20]; };
template<class C> static void ops() {
  auto m = component_meta::of<C>(); meta_of<C>(m); alignas(16) unsigned char a[sizeof(C)], b[sizeof(C)], c[sizeof(C)]; C* s = new (a) C(cs::i32("value") & 0xffff); int v = s->get(); long live = g_live;
  m.type->copy_construct(b, a); C* p = reinterpret_cast<C*>(b); CHECKM(g_live == live + 1 && p->get() == v && s->get() == v, "the recorded copy operation does not copy"); *p->cell = v + 1; CHECKM(s->get() == v, "a copy is not independent");
  m.type->move_construct(c, a); C* q = reinterpret_cast<C*>(c); CHECKM(q->get() == v && s->cell == nullptr, "the recorded move construction does not move"); CHECKM(g_live == live + 2, "move construction does not construct one object");
  m.type->move_assign(c, b); CHECKM(q->get() == v + 1 && p->cell == nullptr && g_live == live + 2, "the recorded move assignment does not move"); m.type->destruct(a); m.type->destruct(b); m.type->destruct(c); CHECKM(g_live == live - 1, "the recorded destruction does not destroy"); }
ENTRY(c20_meta) { meta_of<T<0>>(component_meta::of<T<0>>()); meta_of<T<9>>(component_meta::of<T<9>>()); meta_of<Over<0>>(component_meta::of<Over<0>>()); meta_of<Over<6>>(component_meta::of<Over<6>>()); meta_of<Over<12>>(component_meta::of<Over<12>>()); meta_of<entity>(component_meta::of<entity>()); ops<Tr>(); ops<Tr2>();
  CHECKM(component_meta::of<Tr>() == component_meta::of<Tr>() && !(component_meta::of<Tr>() == component_meta::of<Tr2>()), "metadata equality does not follow the types"); CHECKM(g_live == 0, "objects left behind"); cs_reach("end"); }
// sets of identifiers from an arbitrary history, over more types than fit one word
static unsigned pickid(unsigned nids) { static const unsigned cand[6] = {0, 63, 64, 1, 65, 130}; return cand[cs_concretize(cs::choice("id", nids))]; }
ENTRY(c20_sets) {
  component_set s[2]; bool in[2][131] = {}; unsigned steps = cs_param("steps", 4), nids = cs_param("ids", 3);
  for (unsigned i = 0; i < steps; i++) { unsigned w = cs_concretize(cs::choice("set", 2)), op = cs_concretize(cs::choice("op", 4)); if (op == 3) { s[w].clear(); for (auto& x : in[w]) x = false; continue; } if (op == 2) { s[w] = s[w ^ 1]; for (unsigned k = 0; k < 131; k++) in[w][k] = in[w ^ 1][k]; continue; } unsigned k = pickid(nids); if (op == 0) s[w].insert(k); else s[w].erase(k); in[w][k] = op == 0; }
  bool eq = true; for (unsigned k = 0; k < 131; k++) eq &= in[0][k] == in[1][k];
  for (int w = 0; w < 2; w++) for (unsigned k = 0; k < 131; k++) if (k < 2 || k == 5 || (k > 61 && k < 67) || k > 126) CHECKM(s[w].contains(k) == in[w][k], "a component set contains the wrong types"); CHECKM((s[0] == s[1]) == eq && (s[1] == s[0]) == eq, "component set equality differs from set equality"); if (eq) CHECKM(component_set_hasher{}(s[0]) == component_set_hasher{}(s[1]), "equal component sets hash differently");
  cs_reach("end"); }
template<int I> static void mset(component_meta_set& s, bool ins) { if (ins) s.insert<T<I>>(); else s.erase<T<I>>(); }
static void mset(component_meta_set& s, unsigned k, bool ins) { switch (k) { case 0: mset<0>(s, ins); break; case 1: mset<63>(s, ins); break; case 2: mset<64>(s, ins); break; case 3: mset<70>(s, ins); break; default: mset<79>(s, ins); } }
static const unsigned mt[5] = {0, 63, 64, 70, 79};
ENTRY(c20_meta_sets) {
  fill_ids(); component_meta_set s[2]; bool in[2][5] = {}; unsigned steps = cs_param("steps", 4), nt = cs_param("types", 4);
  for (unsigned i = 0; i < steps; i++) { unsigned w = cs_concretize(cs::choice("set", 2)), op = cs_concretize(cs::choice("op", 3)); if (op == 2) { s[w] = s[w ^ 1]; for (unsigned k = 0; k < 5; k++) in[w][k] = in[w ^ 1][k]; continue; } unsigned k = cs_concretize(cs::choice("type", nt)); mset(s[w], k, op == 0); in[w][k] = op == 0; }
  bool eq = true; for (unsigned k = 0; k < 5; k++) eq &= in[0][k] == in[1][k];
  for (int w = 0; w < 2; w++) { unsigned n = 0, listed[5] = {}; for (unsigned k = 0; k < 5; k++) { n += in[w][k]; CHECKM(s[w].contains(ids[mt[k]]) == in[w][k] && s[w].ids().contains(ids[mt[k]]) == in[w][k], "a component set contains the wrong types"); }
    CHECKM(s[w].contains<T<63>>() == in[w][1] && s[w].contains<T<79>>() == in[w][4] && !s[w].contains<T<5>>(), "a component set contains the wrong types"); CHECKM(s[w].size() == n, "a component set's size is not its number of types");
    for (const auto& m : s[w]) { unsigned k = 9; for (unsigned q = 0; q < 5; q++) if (ids[mt[q]] == m.id) k = q; CHECKM(k < 5, "a component set lists a type that is not in it"); if (k < 5) { listed[k]++; CHECKM(m.type->size == mt[k] + 1 && m.type->align == 1, "a component set lists the wrong metadata"); } } for (unsigned k = 0; k < 5; k++) CHECKM(listed[k] == in[w][k], "a component set does not list each of its types once"); }
  CHECKM((s[0] == s[1]) == eq, "component set equality differs from set equality"); if (eq) CHECKM(component_set_hasher{}(s[0].ids()) == component_set_hasher{}(s[1].ids()), "equal component sets hash differently"); cs_reach("end"); }
// sets built in any order of types are one archetype
ENTRY(c20_archetypes) { registry r; entity a = r.create<T<1>, T<64>, T<70>>({}, {}, {}), b; switch (cs_concretize(cs::choice("order", 4))) { case 0: b = r.create<T<70>, T<64>, T<1>>({}, {}, {}); break; case 1: b = r.create<T<64>, T<1>, T<70>>({}, {}, {}); break; case 2: b = r.create<T<70>>({}); r.get_entity(b).set<T<1>>(T<1>{}).set<T<64>>(T<64>{}); break; default: b = r.create<T<1>, T<70>, T<64>, T<3>>({}, {}, {}, {}); r.get_entity(b).remove<T<3>>(); }
  CHECKM(&r.get_entity(a).archetype() == &r.get_entity(b).archetype(), "entities with the same components have different archetypes"); cs_reach("end"); }
static auto local1() { struct Local { int a; }; return component_id::value<Local>; } static auto local2() { struct Local { double a, b; }; return component_id::value<Local>; }
ENTRY(c20_local) { unsigned w = cs_concretize(cs::choice("which", 2)); CHECKM(local1() != local2() || w > 1, "types of the same name local to different functions share an identifier"); cs_reach("end"); }
