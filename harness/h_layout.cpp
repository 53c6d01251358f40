// C04: storage layout for arbitrary component sizes and alignments.
#include "cs.hpp"
#include <co_ecs/co_ecs.hpp>
#include <optional>
using namespace co_ecs;
static type_meta types[4];
static void no2(void*, void*) {} static void no1(void*) {}
// a type of any size that is a non-zero multiple of its power-of-two alignment
static void sym_type(type_meta& t, unsigned maxlog, unsigned stride, unsigned minsize, unsigned maxsize) {
  size_t al = size_t{1} << stride * cs_concretize(cs::choice("log2(align)/stride", maxlog / stride + 1)); size_t size = cs_sym("size", 15); cs_assume(size >= minsize); cs_assume(size <= maxsize); cs_assume((size & (al - 1)) == 0);
  t.size = size; t.align = al; t.copy_construct = no2; t.move_construct = no2; t.move_assign = no2; t.destruct = no1; }
struct where { uintptr_t p; size_t size; };
ENTRY(c04_layout) {
  const unsigned n = cs_param("types", 2), maxlog = cs_param("maxlog", 5), stride = cs_param("stride", 1), minsize = cs_param("minsize", 1), maxsize = cs_param("maxsize", 17000);
  component_meta_set set;
  for (unsigned i = 0; i < n; i++) { sym_type(types[i], maxlog, stride, minsize, maxsize); set.insert(component_meta{ component_id_t(40 + 3 * i), &types[i] }); }
  size_t sum = sizeof(entity), pad = 0; for (unsigned i = 0; i < n; i++) { sum += types[i].size; pad += types[i].align - 1; }
  cs_concretize(chunk::chunk_bytes / sum);  // case split on the number of entities a block could hold: every case is linear
  std::optional<archetype> at; bool threw = false;
  try { at.emplace(set); } catch (const insufficient_chunk_size&) { threw = true; }
  if (threw) { CHECKM(sum + pad > chunk::chunk_bytes, "components that fit a block in any order were rejected"); cs_reach("rejected"); return; }
  CHECKM(sum <= chunk::chunk_bytes, "components that cannot fit a block were accepted");
  auto& ch = at->chunks(); CHECKM(ch.size() == 1 && ch[0].size() == 0, "a new table must start with one empty block");
  const size_t cap = cs_concretize(ch[0].max_size()); CHECKM(cap >= 1, "capacity must be at least one");
  const auto* e0 = ch[0].ptr_const<entity>(0); const uintptr_t base = cs_block_base(e0), bytes = cs_block_size(e0), balign = cs_block_align(e0);
  CHECKM(balign % alignof(entity) == 0, "entity handles are misaligned"); for (unsigned i = 0; i < n; i++) CHECKM(balign % types[i].align == 0, "the block is not aligned strictly enough for its components");
  auto at_index = [&](size_t idx, where* w) { w[0] = where{ (uintptr_t)ch[0].ptr_const<entity>(idx), sizeof(entity) }; for (unsigned i = 0; i < n; i++) w[1 + i] = where{ 0, 0 };
    std::as_const(*at).visit(entity_location{ &*at, 0, idx }, [&](const component_meta& m, const void* p) { for (unsigned i = 0; i < n; i++) if (m.type == &types[i]) { w[1 + i] = where{ (uintptr_t)p, types[i].size }; CHECKM(m.id == 40 + 3 * i, "component presented under another identity"); } }); for (unsigned i = 0; i < n; i++) CHECKM(w[1 + i].size != 0, "a component is not presented"); };
  auto disjoint = [](const where& x, const where& y) { return (x.p + x.size <= y.p) | (y.p + y.size <= x.p); };
  where first[5], last[5], some[5], next[5];
  at_index(0, first); at_index(cap - 1, last);
  for (unsigned i = 0; i <= n; i++) { CHECKM(first[i].p >= base, "storage of the first entity starts before the block"); CHECKM(last[i].p + last[i].size <= base + bytes, "storage of the last entity leaves the block"); CHECKM(last[i].p >= first[i].p, "storage wraps around");
    if (i) CHECKM(((first[i].p - base) & (types[i - 1].align - 1)) == 0, "component storage is misaligned"); else CHECKM(((first[0].p - base) & (alignof(entity) - 1)) == 0, "entity handle storage is misaligned");
    // arrays of different components do not touch: compare the whole extents
    for (unsigned j = 0; j < i; j++) { where x{ first[i].p, last[i].p + last[i].size - first[i].p }, y{ first[j].p, last[j].p + last[j].size - first[j].p }; CHECKM(disjoint(x, y), "storage of two components overlaps"); } }
  // within one component: consecutive entries are exactly one element apart
  size_t idx = cs_sym("index", 16); cs_assume(idx < cap); cs_assume(idx + 1 < cap);
  at_index(idx, some); at_index(idx + 1, next);
  for (unsigned i = 0; i <= n; i++) CHECKM(next[i].p - some[i].p == some[i].size, "consecutive entities' storage is not one element apart");
  cs_reach("accepted");
}
// the same for real component types, whose size and alignment come from the compiler
template<size_t S, size_t A, int K> struct alignas(A) T { unsigned char b[S]; };
using T0 = T<5, 1, 0>; using T1 = T<2, 2, 1>; using T2 = T<16, 16, 2>; using T3 = T<64, 64, 3>; using T4 = T<300, 4, 4>; using T5 = T<512, 512, 5>;
template<class... C> static void real(registry& r, unsigned n) {
  entity e[8]; for (unsigned i = 0; i < n; i++) e[i] = r.create<C...>(C{}...);
  struct w { uintptr_t p; size_t n; } s[8 * 8]; unsigned k = 0; auto add = [&]<class X>(unsigned i, X*) { const X& x = r.get_entity(e[i]).template get<X>(); uintptr_t p = (uintptr_t)&x; CHECKM(p % alignof(X) == 0, "component storage is misaligned"); CHECKM(p >= cs_block_base(&x) && p + sizeof(X) <= cs_block_base(&x) + cs_block_size(&x), "component storage leaves the block"); s[k++] = w{ p, sizeof(X) }; };
  for (unsigned i = 0; i < n; i++) (add(i, (C*)nullptr), ...);
  for (unsigned i = 0; i < k; i++) for (unsigned j = 0; j < i; j++) CHECKM((s[i].p + s[i].n <= s[j].p) | (s[j].p + s[j].n <= s[i].p), "storage of two components overlaps");
  r.each([&](const entity& h, const C&... c) { (cs_check((uintptr_t)&c % alignof(C) == 0, "a query presents misaligned components"), ...); }); }
ENTRY(c04_types) { registry r; unsigned n = cs_param("entities", 2); switch (cs::choice("types", 16)) {
  case 0: real<T3>(r, n); break; case 1: real<T0, T3>(r, n); break; case 2: real<T3, T0>(r, n); break; case 3: real<T0, T1, T2, T3>(r, n); break; case 4: real<T3, T2, T1, T0>(r, n); break; case 5: real<T5, T0>(r, n); break; case 6: real<T0, T5>(r, n); break; case 7: real<T4, T3, T0>(r, n); break;
  case 8: real<T0, T2>(r, n); break; case 9: real<T2, T0, T5>(r, n); break; case 10: real<T5>(r, n); break; case 11: real<T1, T0, T4>(r, n); break;
  case 12: { auto e = r.create<T0>(T0{}); e.set<T3>(); CHECKM((uintptr_t)&e.get<T3>() % 64 == 0, "component storage is misaligned"); break; } case 13: { auto e = r.create<T0, T5>(T0{}, T5{}); e.remove<T0>(); CHECKM((uintptr_t)&e.get<T5>() % 512 == 0, "component storage is misaligned"); break; }
  case 14: { registry q; auto e = r.create<T0, T5>(T0{}, T5{}).move(q); CHECKM((uintptr_t)&e.get<T5>() % 512 == 0, "component storage is misaligned"); break; } default: { auto e = r.create<T0, T3>(T0{}, T3{}).clone(); CHECKM((uintptr_t)&e.get<T3>() % 64 == 0, "component storage is misaligned"); break; } }
  cs_reach("end"); }
