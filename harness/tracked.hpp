// A value type whose lifetime is tracked: live objects are counted, the payload is owned, and any use of an
// object outside its lifetime is an error (the executor also sees it as a memory error on the owned cell).
#pragma once
#include "cs.hpp"
#include <utility>
inline long g_live = 0; inline void g_count(int d) { cs::quiet q; g_live += d; }
struct Tracked {
  static constexpr uint32_t ALIVE = 0xA11CE, GONE = 0xDEAD;
  uint32_t state; int* cell;
  void use() const { CHECKM(state == ALIVE, "an element is used outside its lifetime"); }
  Tracked() : Tracked(0) {}
  Tracked(int v) : state(ALIVE), cell(new int(v)) { g_count(1); }
  Tracked(const Tracked& o) : state(ALIVE), cell(nullptr) { o.use(); if (o.cell) cell = new int(*o.cell); g_count(1); }
  Tracked(Tracked&& o) noexcept : state(ALIVE), cell(nullptr) { o.use(); std::swap(cell, o.cell); g_count(1); }
  Tracked& operator=(const Tracked& o) { use(); o.use(); if (this != &o) { delete cell; cell = o.cell ? new int(*o.cell) : nullptr; } return *this; }
  Tracked& operator=(Tracked&& o) noexcept { use(); o.use(); if (this != &o) { delete cell; cell = o.cell; o.cell = nullptr; } return *this; }
  ~Tracked() { CHECKM(state == ALIVE, "an element is destroyed twice or without having been constructed"); delete cell; cell = nullptr; state = GONE; g_count(-1); }
  int get() const { use(); CHECKM(cell != nullptr, "an element was moved from and then read"); return cell ? *cell : -1; }
};
