// C17: the dynamic bitset against the set of bits.
#include "cs.hpp"
#include <cstddef>
#include <utility>
#include <co_ecs/detail/dynamic_bitset.hpp>
using namespace co_ecs::detail;
template<class T, unsigned W> struct ref { T w[W]; };
template<class T, unsigned W> static void history(dynamic_bitset<T>& b, ref<T, W>& r, unsigned steps) {
  constexpr unsigned B = sizeof(T) * 8;
  for (unsigned i = 0; i < steps; i++) { unsigned op = cs::choice("op", 3); if (op == 2) { b.clear(); for (auto& x : r.w) x = 0; continue; }
    size_t pos = cs_sym("bit", 16); cs_assume(pos < W * B); bool v = op == 0; if (v) b.set(pos); else b.set(pos, false);
    for (unsigned w = 0; w < W; w++) { T m = (T)((pos / B == w) ? (T)1 : (T)0) << (pos % B); if (v) r.w[w] |= m; else r.w[w] &= ~m; } } }
template<class T, unsigned W> static void probe(const dynamic_bitset<T>& b, const ref<T, W>& r) { constexpr unsigned B = sizeof(T) * 8; size_t q = cs_sym("probe", 64); bool want = false; for (unsigned w = 0; w < W; w++) want |= (q / B == w) & ((r.w[w] >> (q % B)) & 1); CHECKM(b.test(q) == want, "a bit reads differently from what was last set"); }
template<class T, unsigned W> static void one() { static const unsigned init[] = {1, 0, 2, 3}; dynamic_bitset<T> b(init[cs_concretize(cs::choice("initial blocks", 4))]); ref<T, W> r{}; history(b, r, cs_param("steps", 3)); probe(b, r); dynamic_bitset<T> c(b); probe(c, r); CHECKM(c == b, "a copy equals its source"); cs_reach("end"); }
template<class T, unsigned W> static void two() { static const unsigned init[] = {1, 0, 2, 3}; dynamic_bitset<T> a(init[cs_concretize(cs::choice("initial blocks", 4))]), b(init[cs_concretize(cs::choice("initial blocks", 4))]); ref<T, W> x{}, y{}; unsigned s = cs_param("steps", 2); history(a, x, s); history(b, y, s);
  bool same = true; for (unsigned w = 0; w < W; w++) same &= x.w[w] == y.w[w]; CHECKM((a == b) == same, "equality differs from equality of the sets of bits"); CHECKM((b == a) == same, "equality is not symmetric"); if (same) CHECKM(std::hash<dynamic_bitset<T>>{}(a) == std::hash<dynamic_bitset<T>>{}(b), "equal bitsets hash differently"); cs_reach("end"); }
ENTRY(c17_bits) { one<uint64_t, 3>(); }
ENTRY(c17_bits8) { one<uint8_t, 4>(); }
ENTRY(c17_equal) { two<uint64_t, 3>(); }
ENTRY(c17_equal8) { two<uint8_t, 3>(); }
