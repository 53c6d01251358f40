// Machine state: memory objects (copy-on-write pages), threads, path condition.
#pragma once
#include "expr.hpp"
#include <map>
#include <cstring>
#include <string>
#include <functional>

namespace cosym {

struct Val { u64 c = 0; E e = nullptr; 
  Val() = default; template<class I, class = std::enable_if_t<std::is_integral_v<I>>> Val(I x) : c((u64)x) {} explicit Val(E x) { if (x->k == K_CONST && x->w <= 64) c = x->c; else e = x; }
  bool sym() const { return e != nullptr; } };
inline E toE(const Val& v, unsigned w) { return v.e ? v.e : (w <= 64 ? mkConst(v.c, w) : mkConst(v.c, w)); }

template<class T> struct Ref { // intrusive
  T* p = nullptr; Ref() = default; explicit Ref(T* x) : p(x) { if (p) p->rc++; }
  Ref(const Ref& o) : p(o.p) { if (p) p->rc++; } Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; } ~Ref() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; } T& operator*() const { return *p; } explicit operator bool() const { return p; }
  T* mut() { if (p->rc > 1) { T* n = new T(*p); n->rc = 0; *this = Ref(n); } return p; } };

struct SymBytes { E s[64]; };
struct Page { u32 rc = 0; u64 symm = 0, uninit = 0; u8 b[64]; SymBytes* sb = nullptr;
  Page() { memset(b, 0, 64); } Page(const Page& o) : symm(o.symm), uninit(o.uninit) { memcpy(b, o.b, 64); if (o.sb) sb = new SymBytes(*o.sb); }
  Page& operator=(const Page&) = delete; ~Page() { delete sb; } };
struct Seg { u32 rc = 0; std::vector<Ref<Page>> pg; };

enum ObjKind : u8 { O_GLOBAL, O_HEAP, O_HEAPARR, O_STACK, O_FUNC, O_EXC, O_MALLOC, O_TLS };
struct Obj { u32 rc = 0; u64 base = 0; u64 size = 0; u64 align = 1; ObjKind kind = O_HEAP; bool alive = true, ro = false, zeroed = false; u32 owner = 0; 
  std::vector<Ref<Seg>> segs; const char* name = ""; 
  // pages absent: uninitialised (or zero when zeroed)
  Page* pageR(u64 off) const { u64 s = off >> 12; if (s >= segs.size() || !segs[s].p) return nullptr; auto& pg = segs[s]->pg; u64 q = (off >> 6) & 63; return q < pg.size() ? pg[q].p : nullptr; }
  Page* pageW(u64 off) { u64 s = off >> 12; if (segs.size() <= s) segs.resize((size + 4095) >> 12);
    if (!segs[s].p) { auto* n = new Seg; u64 rem = size - (s << 12); n->pg.resize(rem >= 4096 ? 64 : (rem + 63) >> 6); segs[s] = Ref<Seg>(n); }
    Seg* sg = segs[s].mut(); u64 q = (off >> 6) & 63; auto& r = sg->pg[q];
    if (!r.p) { auto* n = new Page; if (!zeroed) n->uninit = ~0ull; r = Ref<Page>(n); }
    return r.mut(); }
};

constexpr u64 ID_SHIFT = 32;
struct ObjChunk { u32 rc = 0; Ref<Obj> o[256]; };
struct Mem {
  std::vector<Ref<ObjChunk>> tab; u64 next = 1; 
  Obj* get(u64 id) const { if (id == 0 || id >= next) return nullptr; return tab[id >> 8]->o[id & 255].p; }
  Obj* getW(u64 id) { auto* c = tab[id >> 8].mut(); return c->o[id & 255].mut(); }
  void put(u64 id, Obj* o) { while ((id >> 8) >= tab.size()) tab.push_back(Ref<ObjChunk>(new ObjChunk)); auto* c = tab[id >> 8].mut(); c->o[id & 255] = Ref<Obj>(o); if (next <= id) next = id + 1; u64 low = 0x10000; u64 al = o->align ? o->align : 1; if (al < 0x8000) low += al; else low = al; o->base = (id << ID_SHIFT) + low; }
  u64 add(Obj* o) { u64 id = next++; if ((id >> 8) >= tab.size()) tab.push_back(Ref<ObjChunk>(new ObjChunk)); auto* c = tab[id >> 8].mut(); c->o[id & 255] = Ref<Obj>(o);
    u64 low = 0x10000; u64 al = o->align ? o->align : 1; if (al < 0x8000) low += al; else low = al; o->base = (id << ID_SHIFT) + low; return id; }
};
}
