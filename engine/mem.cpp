// symx: memory.
#include "exec.h"
#include <algorithm>

namespace sx {

Ref<Obj> *Engine::findObj(State &s, uint64_t addr) {
  auto look = [&](std::vector<Ref<Obj>> &v) -> Ref<Obj> * {
    size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->base <= addr) lo = m + 1; else hi = m; }
    if (lo == 0) return nullptr;
    Ref<Obj> &o = v[lo - 1];
    if (addr < o->base + o->size || (addr == o->base && o->size == 0)) return &o;
    return nullptr;
  };
  if (Ref<Obj> *r = look(s.objs)) return r;
  if (addr < 0x100000000ull) return look(gobjs);
  return nullptr;
}

uint64_t Engine::alloc(State &s, uint64_t n, OK kind, bool uninit, const char *what, uint64_t align) {
  if (align < 16) align = 16;
  nextAddr = (nextAddr + align - 1) / align * align;
  uint64_t a = nextAddr;
  nextAddr += (n + 15) / 16 * 16 + 64;
  if (n > (64u << 20)) throw EngineError{"allocation larger than 64 MiB"};
  Obj *o = new Obj(a, n, kind, uninit && opt.checkUninit);
  o->what = what;
  s.objs.push_back(Ref<Obj>(o));
  return a;
}

void Engine::removeObj(State &s, uint64_t addr) {
  size_t lo = 0, hi = s.objs.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (s.objs[m]->base < addr) lo = m + 1; else hi = m; }
  if (lo < s.objs.size() && s.objs[lo]->base == addr) s.objs.erase(s.objs.begin() + lo);
}

void Engine::freeObj(State &s, uint64_t addr, int how) {
  if (!addr) return;
  Ref<Obj> *o = findObj(s, addr);
  if (!o || (*o)->base != addr || (*o)->kind != OK::Heap) fail(s, "memory", "invalid or double free");
  if ((*o)->how != how) fail(s, "memory", "allocation/deallocation mismatch");
  if (s.mt) accessMt(s, addr, (*o)->size, true);
  removeObj(s, addr);
}

static unsigned lowZeros(E e, int depth = 0) {
  if (depth > 8) return 0;
  switch (e->op) {
  case Op::Const: return e->v ? (unsigned)__builtin_ctzll(e->v) : 64;
  case Op::Mul: return std::min(64u, lowZeros(e->a, depth + 1) + lowZeros(e->b, depth + 1));
  case Op::Add: case Op::Sub: case Op::Or: return std::min(lowZeros(e->a, depth + 1), lowZeros(e->b, depth + 1));
  case Op::And: return std::max(lowZeros(e->a, depth + 1), lowZeros(e->b, depth + 1));
  case Op::Shl: return e->b->isConst() ? lowZeros(e->a, depth + 1) + (unsigned)e->b->v : 0;
  case Op::ZExt: case Op::SExt: return lowZeros(e->a, depth + 1);
  case Op::Ite: return std::min(lowZeros(e->b, depth + 1), lowZeros(e->c, depth + 1));
  case Op::Concat: { unsigned z = lowZeros(e->b, depth + 1); return z >= e->b->w ? e->b->w + lowZeros(e->a, depth + 1) : z; }
  default: return 0;
  }
}
static void leavesOf(E e, std::vector<uint64_t> &out) {
  if (e->isConst()) { if (std::find(out.begin(), out.end(), e->v) == out.end()) out.push_back(e->v); return; }
  leavesOf(e->b, out);
  leavesOf(e->c, out);
}

void Engine::checkAcc(State &s, uint64_t a, uint64_t n, bool wr, const char *what, Ref<Obj> **out) {
  Ref<Obj> *o = findObj(s, a);
  if (!o || a + n > (*o)->base + (*o)->size) {
    std::string m = std::string(wr ? "invalid write" : "invalid read") + " of " + std::to_string(n) + " byte(s) in " + what;
    if (a < 4096) m += " (null pointer)";
    else if (o) m += " past the end of a " + std::to_string((*o)->size) + "-byte object";
    else m += " (outside any live object)";
    fail(s, "memory", m);
  }
  if (wr && (*o)->ro) fail(s, "memory", "write to read-only memory");
  if (out) *out = o;
}

std::vector<Engine::Access> Engine::resolve(State &s, const Val &p, uint64_t n, bool wr, const char *what) {
  std::vector<Access> r;
  if (!p.e) { checkAcc(s, p.c, n, wr, what, nullptr); r.push_back({p.c, nullptr}); return r; }
  if (p.e->leaves && p.e->leaves <= 256) {
    std::vector<uint64_t> ls;
    leavesOf(p.e, ls);
    for (uint64_t v : ls) {
      Ref<Obj> *o = findObj(s, v);
      bool ok = o && v + n <= (*o)->base + (*o)->size && !(wr && (*o)->ro);
      E g = mkEq(p.e, mkConst(v, 64));
      if (!ok) { if (decide(s, g)) checkAcc(s, v, n, wr, what, nullptr); }
      else r.push_back({v, g});
    }
    if (r.empty()) throw PathEnd{1, "no feasible pointer"};
    return r;
  }
  // base + symbolic offset: find the intended object
  Ref<Obj> *o = nullptr;
  uint64_t mv = evalExpr(p.e, s.model);
  if (p.e->op == Op::Add) {
    if (p.e->b->isConst()) o = findObj(s, p.e->b->v);
    else if (p.e->a->isConst()) o = findObj(s, p.e->a->v);
  }
  if (!o) o = findObj(s, mv);
  if (!o) { checkAcc(s, mv, n, wr, what, nullptr); }
  uint64_t base = (*o)->base, size = (*o)->size;
  if (size < n) checkAcc(s, mv, n, wr, what, nullptr);
  // p - base <= size - n
  E off = mkBin(Op::Sub, p.e, mkConst(base, 64));
  E inb = mkBin(Op::Ule, off, mkConst(size - n, 64));
  if (!decide(s, inb)) {
    // outside the intended object: a violation, unless the pointer legitimately may point elsewhere
    bool intended = p.e->op == Op::Add && ((p.e->b->isConst() && p.e->b->v >= base && p.e->b->v <= base + size) || (p.e->a->isConst() && p.e->a->v >= base && p.e->a->v <= base + size));
    if (intended) fail(s, "memory", std::string(wr ? "invalid write" : "invalid read") + " of " + std::to_string(n) + " byte(s) in " + what + " at an index outside a " + std::to_string(size) + "-byte object");
    checkAcc(s, mv, n, wr, what, nullptr);
    uint64_t a = concretize(s, p, 64);
    checkAcc(s, a, n, wr, what, nullptr);
    r.push_back({a, nullptr});
    return r;
  }
  if (wr && (*o)->ro) fail(s, "memory", "write to read-only memory");
  unsigned lz = std::min(lowZeros(off), 3u);
  uint64_t stride = 1ull << lz;
  uint64_t cnt = (size - n) / stride + 1;
  if (cnt > 4096 || n * cnt > 8192) {
    uint64_t a = concretize(s, p, 64);
    r.push_back({a, nullptr});
    return r;
  }
  // narrow the range of feasible offsets when many candidates
  uint64_t lo = 0, hi = cnt - 1;
  if (cnt > 24) {
    // binary search for the maximum
    uint64_t known = (evalExpr(off, s.model)) / stride;
    uint64_t a = known, b = hi;
    while (a < b) {
      uint64_t m = (a + b + 1) / 2;
      Model om;
      if (mayBe(s, mkBin(Op::Ule, mkConst(m * stride, 64), off), &om)) a = std::max<uint64_t>(m, evalExpr(off, om) / stride); else b = m - 1;
    }
    hi = a;
    a = lo; b = known;
    while (a < b) {
      uint64_t m = (a + b) / 2;
      Model om;
      if (mayBe(s, mkBin(Op::Ule, off, mkConst(m * stride, 64)), &om)) b = std::min<uint64_t>(m, evalExpr(off, om) / stride); else a = m + 1;
    }
    lo = a;
  }
  if (lo == hi) { r.push_back({base + lo * stride, nullptr}); return r; }
  for (uint64_t i = lo; i <= hi; i++) r.push_back({base + i * stride, mkEq(off, mkConst(i * stride, 64))});
  return r;
}

Val Engine::loadC(State &s, uint64_t addr, unsigned w, Ref<Obj> *o) {
  if (!o) o = findObj(s, addr);
  if (w > 64) throw EngineError{"load wider than 64 bits"};
  unsigned n = (w + 7) / 8;
  uint64_t off = addr - (*o)->base;
  Obj *b = o->get();
  if (b->s.empty()) {
    uint64_t v = 0;
    for (unsigned i = 0; i < n; i++) v |= (uint64_t)b->c[off + i] << (8 * i);
    return Val(v & maskw(w));
  }
  bool sym = false;
  for (unsigned i = 0; i < n; i++) if (b->s[off + i]) {
    sym = true;
    if (b->s[off + i] == g_uninit) {
      Obj *x = o->w();
      x->s[off + i] = mkVar("uninit", 8, true);
      b = x;
    }
  }
  if (!sym) {
    uint64_t v = 0;
    for (unsigned i = 0; i < n; i++) v |= (uint64_t)b->c[off + i] << (8 * i);
    return Val(v & maskw(w));
  }
  E e = nullptr;
  for (unsigned i = 0; i < n; i++) {
    E x = b->s[off + i] ? b->s[off + i] : mkConst(b->c[off + i], 8);
    e = e ? mkConcat(x, e) : x;
  }
  if (e->w > w) e = mkExtract(e, 0, w);
  return Val(e);
}

void Engine::storeC(State &s, uint64_t addr, const Val &v, unsigned w, Ref<Obj> *o) {
  if (!o) o = findObj(s, addr);
  if (w > 64) throw EngineError{"store wider than 64 bits"};
  unsigned n = (w + 7) / 8;
  Obj *b = o->w();
  uint64_t off = addr - b->base;
  if (!v.e) {
    uint64_t x = v.c & maskw(w);
    for (unsigned i = 0; i < n; i++) b->setC(off + i, (uint8_t)(x >> (8 * i)));
    return;
  }
  E e = v.e;
  if (w < n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) b->setE(off + i, n == 1 ? e : mkExtract(e, 8 * i, 8));
}

Val Engine::load(State &s, const Val &p, unsigned w, const char *what) {
  if (w > 64) throw EngineError{"load of a type wider than 64 bits"};
  unsigned n = (w + 7) / 8;
  if (!p.e) {
    Ref<Obj> *o;
    checkAcc(s, p.c, n, false, what, &o);
    return loadC(s, p.c, w, o);
  }
  auto acc = resolve(s, p, n, false, what);
  Val r = loadC(s, acc.back().addr, w);
  for (size_t i = acc.size() - 1; i-- > 0;) {
    Val v = loadC(s, acc[i].addr, w);
    r = Val(mkIte(acc[i].guard, toE(v, w), toE(r, w)));
  }
  return r;
}

void Engine::store(State &s, const Val &p, const Val &v, unsigned w, const char *what) {
  if (w > 64) throw EngineError{"store of a type wider than 64 bits"};
  unsigned n = (w + 7) / 8;
  if (!p.e) {
    Ref<Obj> *o;
    checkAcc(s, p.c, n, true, what, &o);
    storeC(s, p.c, v, w, o);
    return;
  }
  auto acc = resolve(s, p, n, true, what);
  if (acc.size() == 1) { storeC(s, acc[0].addr, v, w); return; }
  std::vector<Val> nv;
  for (auto &a : acc) {
    Val o = loadC(s, a.addr, w);
    nv.push_back(Val(mkIte(a.guard, toE(v, w), toE(o, w))));
    storeC(s, a.addr, nv.back(), w);
  }
}

E Engine::byteAt(State &s, uint64_t addr) {
  Val v = loadC(s, addr, 8);
  return toE(v, 8);
}

void Engine::memcpyC(State &s, const Val &dp, const Val &sp, uint64_t n, bool) {
  if (n == 0) return;
  if (sp.e && !dp.e && n <= 512) {
    auto sa = resolve(s, sp, n, false, "memcpy source");
    checkAcc(s, dp.c, n, true, "memcpy destination", nullptr);
    if (sa.size() > 1 && sa.size() * n <= 8192 && !s.mt) {
      std::vector<E> nb(n);
      for (uint64_t i = 0; i < n; i++) {
        E r = byteAt(s, sa.back().addr + i);
        for (size_t j = sa.size() - 1; j-- > 0;) r = mkIte(sa[j].guard, byteAt(s, sa[j].addr + i), r);
        nb[i] = r;
      }
      Obj *d = findObj(s, dp.c)->w();
      for (uint64_t i = 0; i < n; i++) d->setE(dp.c - d->base + i, nb[i]);
      return;
    }
  }
  uint64_t da = concretize(s, dp, 64), sa = concretize(s, sp, 64);
  Ref<Obj> *d, *o;
  checkAcc(s, sa, n, false, "memcpy source", &o);
  checkAcc(s, da, n, true, "memcpy destination", &d);
  if (s.mt) { accessMt(s, sa, n, false); accessMt(s, da, n, true); }
  Ref<Obj> src = *o; // keeps the old contents alive
  if (d->get() == src.get()) src = Ref<Obj>(); // same object
  Obj *db = d->w();
  Obj *sb = src ? src.get() : db;
  uint64_t so = sa - sb->base, dof = da - db->base;
  std::vector<uint8_t> tc(sb->c.begin() + so, sb->c.begin() + so + n);
  std::vector<E> ts;
  if (!sb->s.empty()) ts.assign(sb->s.begin() + so, sb->s.begin() + so + n);
  if (ts.empty()) {
    memcpy(db->c.data() + dof, tc.data(), n);
    if (!db->s.empty()) std::fill(db->s.begin() + dof, db->s.begin() + dof + n, nullptr);
  } else {
    for (uint64_t i = 0; i < n; i++) {
      if (ts[i]) { if (db->s.empty()) db->s.assign(db->size, nullptr); db->s[dof + i] = ts[i]; }
      else db->setC(dof + i, tc[i]);
    }
  }
}

void Engine::memsetC(State &s, const Val &dp, const Val &v, uint64_t n) {
  uint64_t da = concretize(s, dp, 64);
  Ref<Obj> *d;
  checkAcc(s, da, n, true, "memset", &d);
  if (s.mt) accessMt(s, da, n, true);
  Obj *db = d->w();
  E b = v.e ? mkExtract(v.e, 0, 8) : nullptr;
  for (uint64_t i = 0; i < n; i++) {
    if (b) db->setE(da - db->base + i, b); else db->setC(da - db->base + i, (uint8_t)v.c);
  }
}

std::string Engine::readStr(State &s, uint64_t a) {
  std::string r;
  for (;;) {
    Ref<Obj> *o;
    checkAcc(s, a, 1, false, "string", &o);
    Val v = loadC(s, a, 8, o);
    uint8_t c = (uint8_t)(v.e ? evalExpr(v.e, s.model) : v.c);
    if (!c) return r;
    r += (char)c;
    a++;
    if (r.size() > 4096) return r;
  }
}

} // namespace sx
