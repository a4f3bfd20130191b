// symx: external functions, exceptions, threads.
#include "exec.h"
#include <algorithm>

using namespace llvm;

namespace sx {

// ---------------------------------------------------------------- exceptions
bool Engine::sameType(State &s, uint64_t a, uint64_t b) {
  if (a == b) return true;
  if (!a || !b) return false;
  uint64_t na = loadC(s, a + 8, 64).c, nb = loadC(s, b + 8, 64).c;
  if (!na || !nb) return false; // fundamental types, defined outside the module: identity only
  if (na == nb) return true;
  return readStr(s, na) == readStr(s, nb);
}

void Engine::findBases(State &s, uint64_t ti, uint64_t want, uint64_t obj, uint64_t addr, std::vector<uint64_t> &out) {
  if (sameType(s, ti, want)) { if (std::find(out.begin(), out.end(), addr) == out.end()) out.push_back(addr); return; }
  uint64_t vt = loadC(s, ti, 64).c;
  if (vt == siVt) findBases(s, loadC(s, ti + 16, 64).c, want, obj, addr, out);
  else if (vt == vmiVt) {
    uint64_t cnt = loadC(s, ti + 20, 32).c;
    for (uint64_t i = 0; i < cnt; i++) {
      uint64_t bt = loadC(s, ti + 24 + 16 * i, 64).c;
      int64_t fl = (int64_t)loadC(s, ti + 32 + 16 * i, 64).c;
      int64_t off = fl >> 8;
      if (!(fl & 2)) continue; // non-public base
      uint64_t ba;
      if (fl & 1) { // virtual base: offset stored in the vtable
        if (!addr) { ba = 0; }
        else { uint64_t vp = loadC(s, addr, 64).c; ba = addr + loadC(s, vp + (uint64_t)off, 64).c; }
      } else ba = addr + (uint64_t)off;
      findBases(s, bt, want, obj, ba, out);
    }
  }
}

bool Engine::canCatch(State &s, uint64_t thrown, uint64_t want, uint64_t obj, uint64_t &adj) {
  std::vector<uint64_t> r;
  if (sameType(s, thrown, want)) { adj = obj; return true; }
  findBases(s, thrown, want, obj, obj, r);
  if (r.size() == 1) { adj = r[0]; return true; }
  return false;
}

// complete-object dynamic_cast (public bases only)
uint64_t Engine::dynCast(State &s, uint64_t p, uint64_t, uint64_t dst) {
  uint64_t vp = loadC(s, p, 64).c;
  Ref<Obj> *o = findObj(s, vp - 16);
  if (!o) fail(s, "memory", "dynamic_cast of an object without vtable");
  uint64_t top = p + loadC(s, vp - 16, 64).c;
  uint64_t ti = loadC(s, vp - 8, 64).c;
  if (!dst) return top;
  std::vector<uint64_t> r;
  findBases(s, ti, dst, top, top, r);
  return r.size() == 1 ? r[0] : 0;
}

bool Engine::landing(State &s, Frame *f, KInst &lp, uint64_t obj) {
  auto *li = cast<LandingPadInst>(lp.I);
  uint64_t ti = loadC(s, obj - 64, 64).c;
  for (unsigned i = 0; i < li->getNumClauses(); i++) {
    if (li->isCatch(i)) {
      auto *c = li->getClause(i);
      uint64_t adj = obj;
      if (c->isNullValue()) {
        storeC(s, obj - 64 + 24, Val(obj), 64);
        f->lpPtr = obj; f->lpSel = 1 << 20; return true;
      }
      uint64_t want = constAddr(c);
      if (canCatch(s, ti, want, obj, adj)) {
        auto it = typeIds.find(want);
        if (it == typeIds.end()) it = typeIds.insert({want, (int)typeIds.size() + 1}).first;
        storeC(s, obj - 64 + 24, Val(adj), 64);
        f->lpPtr = obj; f->lpSel = it->second; return true;
      }
    } else {
      auto *fa = li->getClause(i);
      if (cast<ArrayType>(fa->getType())->getNumElements() == 0) { f->lpPtr = obj; f->lpSel = -1; return true; }
      throw EngineError{"exception specification filter"};
    }
  }
  if (li->isCleanup()) { f->lpPtr = obj; f->lpSel = 0; return true; }
  return false;
}

void Engine::unwind(State &s, uint64_t obj, bool popTop) {
  // Only unwind when some handler exists (otherwise std::terminate without unwinding)
  std::string tn;
  {
    uint64_t ti = loadC(s, obj - 64, 64).c;
    uint64_t np = loadC(s, ti + 8, 64).c;
    tn = np ? readStr(s, np) : "(fundamental type)";
  }
  bool first = true;
  while (!s.stack().empty()) {
    if (!(first && popTop)) {
      Frame *f = s.top();
      KInst &k = f->fn->blocks[f->block].ins[f->ip];
      if (k.opc == Instruction::Invoke) {
        KBlock &lb = f->fn->blocks[k.t1];
        for (KInst &i : lb.ins)
          if (i.opc == Instruction::LandingPad) {
            if (landing(s, f, i, obj)) { jump(s, f, k.t1); return; }
            break;
          }
      }
      if (s.stack().size() == 1) fail(s, "exception", "uncaught exception of type " + tn);
    }
    first = false;
    Frame *f = s.top();
    for (uint64_t a : f->allocas) removeObj(s, a);
    s.stack().pop_back();
  }
  throw EngineError{"unwind ran off the stack"};
}

// ---------------------------------------------------------------- threads
bool Engine::enabled(State &s, int t) {
  Thread &th = s.th[t];
  if (th.done) return false;
  switch (th.pend) {
  case Pend::Lock: { auto it = s.mtx.find(th.addr); return it == s.mtx.end() || (it->second.owner < 0 && it->second.readers.empty()); }
  case Pend::RdLock: { auto it = s.mtx.find(th.addr); return it == s.mtx.end() || it->second.owner < 0; }
  case Pend::Join: return s.th[th.addr].done;
  default: return true;
  }
}

void Engine::schedule(State &s) {
  std::vector<int> opts;
  bool curOk = !s.th[s.cur].done && enabled(s, s.cur);
  if (curOk) opts.push_back(s.cur);
  if (!curOk || s.preempt < opt.preemptBound)
    for (int t = 0; t < (int)s.th.size(); t++) if (t != s.cur && enabled(s, t)) opts.push_back(t);
  // what a new thread does before its first synchronisation commutes with everything (or is a data race)
  for (int t = 0; t < (int)s.th.size(); t++) if (t != s.cur && !s.th[t].done && s.th[t].pend == Pend::Start) { s.cur = t; s.th[t].pend = Pend::None; s.th[t].passed = false; return; }
  if (opts.empty()) {
    for (auto &t : s.th) if (!t.done) fail(s, "deadlock", "deadlock: no thread can make progress");
    throw EngineError{"no threads"};
  }
  int pick = opts[0];
  if (opts.size() > 1) {
    if (!s.pendSched) {
      E v = mkVar("sched", 8);
      auto in = std::make_shared<Input>();
      in->name = "sched"; in->bytes.push_back(v);
      s.inputs.push_back(in);
      addPc(s, mkBin(Op::Ult, v, mkConst(opts.size(), 8)));
      s.pendSched = v;
    }
    size_t i = 0;
    for (; i + 1 < opts.size(); i++) if (decide(s, mkEq(s.pendSched, mkConst(i, 8)))) break;
    pick = opts[i];
    s.pendSched = nullptr;
  }
  if (curOk && pick != s.cur) s.preempt++;
  s.cur = pick;
  Thread &t = s.th[pick];
  if (t.pend == Pend::Start) { t.pend = Pend::None; t.passed = false; }
  else t.passed = true;
}

// true: the current thread may perform its operation now
bool Engine::syncPoint(State &s, Pend p, uint64_t addr) {
  Thread &t = s.th[s.cur];
  if (!s.mt) return true;
  if (t.passed) { t.passed = false; t.pend = Pend::None; return true; }
  t.pend = p; t.addr = addr;
  int me = s.cur;
  schedule(s);
  if (s.cur == me) { s.th[me].passed = false; s.th[me].pend = Pend::None; return true; }
  return false;
}

void Engine::threadDone(State &s) {
  if (s.cur == 0) {
    for (size_t i = 1; i < s.th.size(); i++) if (!s.th[i].done) fail(s, "thread", "a thread is still running at the end");
    throw PathEnd{0, ""};
  }
  s.th[s.cur].done = true;
  // the frame stack is empty: schedule() may fork, so keep a dummy state marker via at=0
  int n = 0;
  for (auto &t : s.th) if (!t.done) n++;
  schedule(s);
  if (n == 1) s.mt = s.mt; // accesses after join are still ordered by the clocks
}

void Engine::accessMt(State &s, uint64_t a, uint64_t n, bool wr) {
  if (n > 64) n = 64;
  race(s, a, n, wr);
}

void Engine::race(State &s, uint64_t a, uint64_t n, bool wr) {
  Ref<Obj> *o = findObj(s, a);
  if (o && (*o)->ro) return;
  if (!s.acc) s.acc = std::make_shared<std::map<uint64_t, AccInfo>>();
  else if (s.acc.use_count() > 1) s.acc = std::make_shared<std::map<uint64_t, AccInfo>>(*s.acc);
  int t = s.cur;
  VC &vc = s.th[t].vc;
  for (uint64_t i = 0; i < n; i++) {
    AccInfo &x = (*s.acc)[a + i];
    if (x.wt >= 0 && x.wt != t && x.wc > vc.v[x.wt]) fail(s, "race", std::string("data race: ") + (wr ? "write" : "read") + " concurrent with a write by another thread");
    if (wr) {
      for (int u = 0; u < MAXT; u++) if (u != t && x.rc_[u] > vc.v[u]) fail(s, "race", "data race: write concurrent with a read by another thread");
      x.wt = t; x.wc = vc.v[t];
    } else x.rc_[t] = vc.v[t];
  }
}

// ---------------------------------------------------------------- natives
void Engine::makeSymbolic(State &s, const Val &p, uint64_t n, const std::string &name) {
  uint64_t a = concretize(s, p, 64);
  Ref<Obj> *o;
  checkAcc(s, a, n, true, "make_symbolic", &o);
  auto in = std::make_shared<Input>();
  in->name = name;
  Obj *b = (*o).w();
  for (uint64_t i = 0; i < n; i++) {
    E v = mkVar(name + "[" + std::to_string(i) + "]", 8);
    in->bytes.push_back(v);
    b->setE(a - b->base + i, v);
  }
  s.inputs.push_back(in);
}

void Engine::initNatives() {
  using A = std::vector<Val>;
  auto def = [&](std::initializer_list<const char *> names, std::function<bool(State &, Frame *, KInst &, A &)> fn) {
    for (auto n : names) nat[n] = fn;
  };
  auto R = [this](Frame *f, KInst &k, uint64_t v) { if (k.dst >= 0) f->regs[k.dst] = Val(v); return true; };

  // --- heap
  def({"malloc"}, [=](State &s, Frame *f, KInst &k, A &a) { uint64_t n = concretize(s, a[0], 64); uint64_t p = alloc(s, n, OK::Heap, true, "malloc"); s.objs.back()->how = 1; return R(f, k, p); });
  def({"calloc"}, [=](State &s, Frame *f, KInst &k, A &a) { uint64_t n = concretize(s, a[0], 64) * concretize(s, a[1], 64); uint64_t p = alloc(s, n, OK::Heap, false, "calloc"); s.objs.back()->how = 1; return R(f, k, p); });
  def({"free"}, [=](State &s, Frame *, KInst &, A &a) { freeObj(s, concretize(s, a[0], 64), 1); return true; });
  auto opnew = [=](int how) {
    return [=](State &s, Frame *f, KInst &k, A &a) {
      uint64_t n;
      if (a[0].e) { // very large symbolic request: bad_alloc is not modelled
        n = concretize(s, a[0], 64);
      } else n = a[0].c;
      if (n > (1ull << 40)) fail(s, "memory", "allocation of an absurd size (" + std::to_string(n) + " bytes)");
      uint64_t p = alloc(s, n, OK::Heap, true, "operator new"); s.objs.back()->how = (uint8_t)how; return R(f, k, p);
    };
  };
  def({"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}, opnew(2));
  def({"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}, opnew(3));
  def({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}, [=](State &s, Frame *, KInst &, A &a) { freeObj(s, concretize(s, a[0], 64), 2); return true; });
  def({"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t"}, [=](State &s, Frame *, KInst &, A &a) { freeObj(s, concretize(s, a[0], 64), 3); return true; });

  // --- memory comparison
  def({"memcmp", "bcmp"}, [=](State &s, Frame *f, KInst &k, A &a) {
    uint64_t n = concretize(s, a[2], 64);
    if (n == 0) return R(f, k, 0);
    uint64_t x = concretize(s, a[0], 64), y = concretize(s, a[1], 64);
    checkAcc(s, x, n, false, "memcmp", nullptr);
    checkAcc(s, y, n, false, "memcmp", nullptr);
    if (s.mt) { accessMt(s, x, n, false); accessMt(s, y, n, false); }
    E r = mkConst(0, 32);
    for (uint64_t i = n; i-- > 0;) {
      E p = byteAt(s, x + i), q = byteAt(s, y + i);
      E lt = mkBin(Op::Ult, p, q);
      r = mkIte(mkEq(p, q), r, mkIte(lt, mkConst(0xffffffff, 32), mkConst(1, 32)));
    }
    setRet(f, k, Val(r));
    return true;
  });
  def({"memcpy", "memmove"}, [=](State &s, Frame *f, KInst &k, A &a) { uint64_t n = concretize(s, a[2], 64); if (n) memcpyC(s, a[0], a[1], n, true); setRet(f, k, a[0]); return true; });
  def({"memset"}, [=](State &s, Frame *f, KInst &k, A &a) { uint64_t n = concretize(s, a[2], 64); if (n) memsetC(s, a[0], a[1], n); setRet(f, k, a[0]); return true; });
  def({"strlen"}, [=](State &s, Frame *f, KInst &k, A &a) {
    uint64_t p = concretize(s, a[0], 64), n = 0;
    for (;; n++) {
      Ref<Obj> *o;
      checkAcc(s, p + n, 1, false, "strlen", &o);
      Val v = loadC(s, p + n, 8, o);
      if (!v.e ? v.c == 0 : decide(s, mkEq(v.e, mkConst(0, 8)))) break;
    }
    return R(f, k, n);
  });

  // --- exceptions
  def({"symx_throw"}, [=](State &s, Frame *, KInst &, A &a) { unwind(s, a[0].c, false); return false; });
  def({"symx_dyncast"}, [=](State &s, Frame *f, KInst &k, A &a) { uint64_t p = concretize(s, a[0], 64); return R(f, k, dynCast(s, p, a[1].c, a[2].c)); });
  def({"symx_cancatch"}, [=](State &s, Frame *f, KInst &k, A &a) { uint64_t adj = 0; bool b = canCatch(s, a[0].c, a[1].c, a[2].c, adj); return R(f, k, b ? adj : 0); });

  // --- engine interface
  def({"symx_make_symbolic"}, [=](State &s, Frame *, KInst &, A &a) { uint64_t n = concretize(s, a[1], 64); makeSymbolic(s, a[0], n, readStr(s, concretize(s, a[2], 64))); return true; });
  def({"symx_assume"}, [=](State &s, Frame *, KInst &, A &a) {
    Val v = a[0];
    if (!v.e) { if (!(v.c & 1)) { nAssume++; throw PathEnd{1, "assume"}; } return true; }
    E c = v.e->w == 1 ? v.e : mkNot(mkEq(v.e, mkConst(0, v.e->w)));
    Model m;
    if (!mayBe(s, c, &m)) { nAssume++; throw PathEnd{1, "assume"}; }
    addPc(s, c);
    s.model = std::move(m);
    return true;
  });
  def({"symx_assert"}, [=](State &s, Frame *, KInst &, A &a) {
    nAsserts++;
    Val v = a[0];
    std::string msg = readStr(s, concretize(s, a[1], 64));
    if (!v.e) { if (!(v.c & 1)) fail(s, "assert", msg); return true; }
    E c = v.e->w == 1 ? v.e : mkNot(mkEq(v.e, mkConst(0, v.e->w)));
    Model m;
    nAssertQ++;
    if (mayBe(s, mkNot(c), &m)) report(s, "assert", msg, m);
    else return true; // implied by the path condition
    Model m2;
    if (!mayBe(s, c, &m2)) throw PathEnd{2, msg};
    addPc(s, c);
    s.model = std::move(m2);
    return true;
  });
  def({"symx_fail"}, [=](State &s, Frame *, KInst &, A &a) { std::string kind = readStr(s, concretize(s, a[0], 64)), msg = readStr(s, concretize(s, a[1], 64)); fail(s, kind, msg); return true; });
  def({"symx_cover"}, [=](State &s, Frame *, KInst &, A &a) { coverCount[readStr(s, concretize(s, a[0], 64))]++; return true; });
  def({"symx_expect_cover"}, [=](State &s, Frame *, KInst &, A &a) { coverDecl.insert(readStr(s, concretize(s, a[0], 64))); return true; });
  def({"symx_observe"}, [=](State &s, Frame *, KInst &, A &a) { s.obs.push_back({pool(readStr(s, concretize(s, a[0], 64))), toE(a[1], 64)}); return true; });
  def({"symx_param"}, [=](State &s, Frame *f, KInst &k, A &a) {
    auto it = opt.params.find(readStr(s, concretize(s, a[0], 64)));
    if (it == opt.params.end()) { setRet(f, k, a[1]); return true; }
    return R(f, k, (uint64_t)it->second);
  });
  def({"symx_concretize"}, [=](State &s, Frame *f, KInst &k, A &a) {
    if (!a[0].e) return R(f, k, a[0].c);
    explicitFork = true;
    uint64_t v = concretize(s, a[0], 64);
    explicitFork = false;
    s.tag = (s.tag ^ (v + 0x9E3779B97F4A7C15ull)) * 0xff51afd7ed558ccdull;
    s.tag ^= s.tag >> 31;
    return R(f, k, v);
  });
  def({"symx_is_concrete"}, [=](State &, Frame *f, KInst &k, A &a) { return R(f, k, a[0].e ? 0 : 1); });
  def({"symx_merge"}, [=](State &s, Frame *, KInst &, A &a) { s.mergeMode = (int)a[0].c; return true; });
  def({"symx_stop"}, [=](State &, Frame *, KInst &, A &) -> bool { throw PathEnd{0, "stop"}; });
  def({"symx_is_symbolic_run"}, [=](State &, Frame *f, KInst &k, A &) { return R(f, k, 1); });
  def({"symx_thread_id"}, [=](State &s, Frame *f, KInst &k, A &) { return R(f, k, (uint64_t)s.cur); });
  def({"symx_clock"}, [=](State &s, Frame *f, KInst &k, A &) { return R(f, k, s.clock); });
  def({"symx_print"}, [=](State &s, Frame *, KInst &, A &a) {
    std::string m = readStr(s, concretize(s, a[0], 64));
    fprintf(stderr, "symx_print: %s %s (model %lu)\n", m.c_str(), a[1].e ? exprStr(a[1].e, 12).c_str() : std::to_string(a[1].c).c_str(), a[1].e ? evalExpr(a[1].e, s.model) : a[1].c);
    return true;
  });

  // --- threads
  def({"symx_spawn"}, [=](State &s, Frame *f, KInst &k, A &a) {
    int id = (int)s.th.size();
    if (id >= MAXT) throw EngineError{"too many threads"};
    auto it = faddr.find(a[0].c);
    if (it == faddr.end()) throw EngineError{"spawn"};
    R(f, k, (uint64_t)id);
    s.th.emplace_back();
    Thread &n = s.th.back();
    Thread &p = s.th[s.cur];
    if (!s.mt) { s.mt = true; p.vc.v[s.cur] = 1; }
    n.vc = p.vc; p.vc.v[s.cur]++; n.vc.v[id] = 1;
    n.pend = Pend::Start;
    int me = s.cur;
    s.cur = id;
    pushFrame(s, it->second, {a[1]}, nullptr);
    s.cur = me;
    return true;
  });
  def({"symx_join"}, [=](State &s, Frame *, KInst &, A &a) {
    int t = (int)a[0].c;
    if (t <= 0 || t >= (int)s.th.size()) throw EngineError{"join"};
    if (!syncPoint(s, Pend::Join, (uint64_t)t)) return false;
    s.th[s.cur].vc.join(s.th[t].vc);
    return true;
  });
  def({"symx_yield"}, [=](State &s, Frame *, KInst &, A &) { return syncPoint(s, Pend::Yield, 0); });
  def({"pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy"}, [=](State &s, Frame *f, KInst &k, A &a) { s.mtx.erase(a[0].c); return R(f, k, 0); });
  def({"pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_mutex_clocklock", "pthread_mutex_timedlock", "pthread_rwlock_timedwrlock", "pthread_rwlock_clockwrlock"}, [=](State &s, Frame *f, KInst &k, A &a) {
    uint64_t m = a[0].c;
    checkAcc(s, m, 8, false, "mutex", nullptr);
    bool rec = false;
    if (k.callee && k.callee->getName() == "pthread_mutex_lock") {
      Val kd = loadC(s, m + 16, 32);
      rec = !kd.e && kd.c == 1;
    }
    if (rec && s.mtx.count(m) && s.mtx[m].owner == s.cur) { s.mtx[m].count++; return R(f, k, 0); }
    if (!syncPoint(s, Pend::Lock, m)) return false;
    MutexInfo &mi = s.mtx[m];
    if (mi.owner >= 0 || !mi.readers.empty()) fail(s, "deadlock", "deadlock: lock of a mutex already held by this thread");
    mi.owner = s.cur; mi.count = 1;
    s.th[s.cur].vc.join(mi.vc);
    return R(f, k, 0);
  });
  def({"pthread_rwlock_rdlock", "pthread_rwlock_timedrdlock", "pthread_rwlock_clockrdlock"}, [=](State &s, Frame *f, KInst &k, A &a) {
    uint64_t m = a[0].c;
    if (!syncPoint(s, Pend::RdLock, m)) return false;
    MutexInfo &mi = s.mtx[m];
    if (mi.owner >= 0) fail(s, "deadlock", "deadlock: shared lock of a mutex held by this thread");
    mi.readers.insert(s.cur);
    s.th[s.cur].vc.join(mi.vc);
    return R(f, k, 0);
  });
  def({"pthread_mutex_trylock", "pthread_rwlock_trywrlock"}, [=](State &s, Frame *f, KInst &k, A &a) {
    uint64_t m = a[0].c;
    if (!syncPoint(s, Pend::TryLock, m)) return false;
    MutexInfo &mi = s.mtx[m];
    if (mi.owner >= 0 || !mi.readers.empty()) return R(f, k, 16);
    mi.owner = s.cur; mi.count = 1;
    s.th[s.cur].vc.join(mi.vc);
    return R(f, k, 0);
  });
  def({"pthread_mutex_unlock", "pthread_rwlock_unlock"}, [=](State &s, Frame *f, KInst &k, A &a) {
    uint64_t m = a[0].c;
    MutexInfo &mi = s.mtx[m];
    Thread &t = s.th[s.cur];
    if (mi.owner == s.cur) {
      if (mi.count > 1) { mi.count--; return R(f, k, 0); }
    } else if (!mi.readers.count(s.cur)) fail(s, "lock", "unlock of a mutex this thread does not hold");
    if (opt.unlockPoints && !syncPoint(s, Pend::Unlock, m)) return false;
    MutexInfo &mj = s.mtx[m];
    if (mj.owner == s.cur) { mj.owner = -1; mj.count = 0; mj.vc = t.vc; }
    else { mj.readers.erase(s.cur); mj.vc.join(s.th[s.cur].vc); }
    s.th[s.cur].vc.v[s.cur]++;
    return R(f, k, 0);
  });
  def({"pthread_self"}, [=](State &s, Frame *f, KInst &k, A &) { return R(f, k, (uint64_t)s.cur + 1); });
  def({"__cxa_atexit", "__cxa_thread_atexit", "atexit"}, [=](State &, Frame *f, KInst &k, A &) { return R(f, k, 0); });
  def({"abort"}, [=](State &s, Frame *, KInst &, A &) { fail(s, "abort", "abort() called"); return true; });
  def({"_exit", "exit"}, [=](State &, Frame *, KInst &, A &) -> bool { throw PathEnd{3, "exit"}; });
}

} // namespace sx
