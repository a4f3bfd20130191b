// symx: instruction interpretation, calls, intrinsics.
#include "exec.h"
#include <algorithm>
#include <cmath>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>

using namespace llvm;

namespace sx {

void Engine::step(State &s) {
  if (++s.steps > opt.maxSteps) fail(s, "hang", "step limit exceeded (no termination within the bound)");
  if ((s.steps & 0xffff) == 0) checkLimits();
  if (s.stack().empty()) { schedule(s); return; } // a finished thread: pick another one
  Frame *f = s.top();
  KBlock &b = f->fn->blocks[f->block];
  KInst &k = b.ins[f->ip];
  k.visited = true;
  exec(s, f, k);
}

void Engine::jump(State &s, Frame *f, int to) {
  KBlock &nb = f->fn->blocks[to];
  if (!nb.phis.empty()) {
    auto it = nb.phis.find(f->block);
    if (it != nb.phis.end()) {
      static thread_local std::vector<Val> tmp;
      tmp.clear();
      for (KPhi &p : it->second) for (int i = 0; i < p.n; i++) tmp.push_back(get(f, p.src, i));
      size_t j = 0;
      for (KPhi &p : it->second) for (int i = 0; i < p.n; i++) f->regs[p.dst + i] = tmp[j++];
    }
  }
  f->block = to;
  f->ip = 0;
  s.at = 1;
}

Val Engine::binop(State &s, unsigned opc, const Val &a, const Val &b, unsigned w) {
  if (w > 64) throw EngineError{"integer wider than 64 bits"};
  Op op;
  switch (opc) {
  case Instruction::Add: op = Op::Add; break;
  case Instruction::Sub: op = Op::Sub; break;
  case Instruction::Mul: op = Op::Mul; break;
  case Instruction::UDiv: op = Op::UDiv; break;
  case Instruction::SDiv: op = Op::SDiv; break;
  case Instruction::URem: op = Op::URem; break;
  case Instruction::SRem: op = Op::SRem; break;
  case Instruction::And: op = Op::And; break;
  case Instruction::Or: op = Op::Or; break;
  case Instruction::Xor: op = Op::Xor; break;
  case Instruction::Shl: op = Op::Shl; break;
  case Instruction::LShr: op = Op::LShr; break;
  case Instruction::AShr: op = Op::AShr; break;
  default: throw EngineError{"binary operator"};
  }
  if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) {
    if (b.e) { if (decide(s, mkEq(b.e, mkConst(0, w)))) fail(s, "div0", "division by zero"); }
    else if ((b.c & maskw(w)) == 0) fail(s, "div0", "division by zero");
  }
  if (!a.e && !b.e) return Val(foldBin(op, a.c, b.c, w));
  return Val(mkBin(op, toE(a, w), toE(b, w)));
}

// an operation on the counters of a shared pointer
static bool refCount(const Instruction *I) {
  static std::unordered_map<const Instruction *, bool> known;
  auto it = known.find(I);
  if (it != known.end()) return it->second;
  bool r = false;
  for (const DILocation *l = I->getDebugLoc(); l && !r; l = l->getInlinedAt())
    if (auto *sp = l->getScope()->getSubprogram()) {
      StringRef n = sp->getName();
      r = n.starts_with("_M_release") || n.starts_with("_M_add_ref") || n.starts_with("_M_weak_") || n.starts_with("_M_use_count") || n.starts_with("_M_get_use_count");
    }
  return known[I] = r;
}

Val Engine::icmp(int pred, const Val &a, const Val &b, unsigned w) {
  Op op; bool sw = false, neg = false;
  switch (pred) {
  case CmpInst::ICMP_EQ: op = Op::Eq; break;
  case CmpInst::ICMP_NE: op = Op::Eq; neg = true; break;
  case CmpInst::ICMP_ULT: op = Op::Ult; break;
  case CmpInst::ICMP_ULE: op = Op::Ule; break;
  case CmpInst::ICMP_UGT: op = Op::Ult; sw = true; break;
  case CmpInst::ICMP_UGE: op = Op::Ule; sw = true; break;
  case CmpInst::ICMP_SLT: op = Op::Slt; break;
  case CmpInst::ICMP_SLE: op = Op::Sle; break;
  case CmpInst::ICMP_SGT: op = Op::Slt; sw = true; break;
  default: op = Op::Sle; sw = true; break;
  }
  if (!a.e && !b.e) {
    uint64_t r = sw ? foldBin(op, b.c, a.c, w) : foldBin(op, a.c, b.c, w);
    return Val(neg ? (r ^ 1) & 1 : r & 1);
  }
  E x = toE(a, w), y = toE(b, w);
  E r = sw ? mkBin(op, y, x) : mkBin(op, x, y);
  return Val(neg ? mkNot(r) : r);
}

static double asD(const Val &v, unsigned w) {
  if (v.e) throw EngineError{"symbolic floating point"};
  if (w == 32) { float x; uint32_t u = (uint32_t)v.c; memcpy(&x, &u, 4); return x; }
  double d; memcpy(&d, &v.c, 8); return d;
}
static Val fromD(double d, unsigned w) {
  if (w == 32) { float x = (float)d; uint32_t u; memcpy(&u, &x, 4); return Val((uint64_t)u); }
  uint64_t u; memcpy(&u, &d, 8); return Val(u);
}

void Engine::exec(State &s, Frame *f, KInst &k) {
  switch (k.opc) {
  case Instruction::Ret: {
    std::vector<Val> rv;
    for (int i = 0; i < k.nd; i++) rv.push_back(get(f, k.a, i));
    doReturn(s, rv);
    return;
  }
  case Instruction::Br:
    if (k.t1 < 0) { jump(s, f, k.t0); return; }
    jump(s, f, decideV(s, get(f, k.a)) ? k.t0 : k.t1);
    return;
  case Instruction::Switch: {
    Val v = get(f, k.a);
    if (!v.e) {
      for (size_t i = 0; i < k.xs.size(); i++) if (k.ys[i] == v.c) { jump(s, f, k.xs[i]); return; }
      jump(s, f, k.t0);
      return;
    }
    std::vector<std::pair<int, E>> g;
    for (size_t i = 0; i < k.xs.size(); i++) {
      E c = mkEq(v.e, mkConst(k.ys[i], k.w2));
      bool done = false;
      for (auto &p : g) if (p.first == k.xs[i]) { p.second = mkOrB(p.second, c); done = true; }
      if (!done) g.push_back({k.xs[i], c});
    }
    for (auto &p : g) if (p.first != k.t0 && decide(s, p.second)) { jump(s, f, p.first); return; }
    jump(s, f, k.t0);
    return;
  }
  case Instruction::Call: case Instruction::Invoke: doCall(s, f, k); return;
  case Instruction::Unreachable:
    fail(s, "unreachable", "reached an unreachable instruction (undefined behaviour)");
  case Instruction::Resume: {
    uint64_t obj = get(f, k.a, 0).c;
    unwind(s, obj, true);
    return;
  }
  case Instruction::LandingPad: {
    f->regs[k.dst] = Val(f->lpPtr);
    f->regs[k.dst + 1] = Val((uint64_t)(uint32_t)f->lpSel);
    f->ip++;
    return;
  }
  case Instruction::Alloca: {
    uint64_t n = concretize(s, get(f, k.a), 64) * (uint64_t)k.off;
    uint64_t a = alloc(s, n, OK::Stack, true, "stack", (uint64_t)k.pred);
    f->allocas.push_back(a);
    f->regs[k.dst] = Val(a);
    f->ip++;
    return;
  }
  case Instruction::Load: {
    // atomic accesses are scheduling points, except those of reference counts
    if (k.pred > 1 && s.mt && !syncPoint(s, Pend::Yield, 0)) return;
    Val p = get(f, k.a);
    if (s.mt && p.e) p = Val(concretize(s, p, 64));
    if (k.pred && s.mt) {
      if (!refCount(k.I)) { auto &m = s.mtx[p.c | (1ull << 63)]; s.th[s.cur].vc.join(m.vc); }
      else { // the only reference left?
        Val v = load(s, p, (*k.comps)[0].w);
        if (v.e || v.c == 1 || v.c == (1ull << 32 | 1)) for (uint64_t x : {p.c, p.c + 4}) { auto &m = s.mtx[x | (1ull << 63)]; s.th[s.cur].vc.join(m.vc); }
      }
    }
    std::vector<Val> r;
    for (auto &c : *k.comps) {
      Val q = c.off ? (p.e ? Val(mkBin(Op::Add, p.e, mkConst(c.off, 64))) : Val(p.c + c.off)) : p;
      r.push_back(load(s, q, c.w));
      if (s.mt && !k.pred) accessMt(s, q.c, (c.w + 7) / 8, false);
    }
    for (size_t i = 0; i < r.size(); i++) f->regs[k.dst + i] = r[i];
    f->ip++;
    return;
  }
  case Instruction::Store: {
    if (k.pred > 1 && s.mt && !syncPoint(s, Pend::Yield, 0)) return;
    Val p = get(f, k.a);
    if (s.mt && p.e) p = Val(concretize(s, p, 64));
    if (k.pred && s.mt) { auto &m = s.mtx[p.c | (1ull << 63)]; m.vc.join(s.th[s.cur].vc); s.th[s.cur].vc.v[s.cur]++; }
    if (p.e && k.comps->size() > 1) p = Val(concretize(s, p, 64));
    int i = 0;
    for (auto &c : *k.comps) {
      Val q = c.off ? Val(p.c + c.off) : p;
      store(s, q, get(f, k.b, i++), c.w);
      if (s.mt && !k.pred) accessMt(s, q.c, (c.w + 7) / 8, true);
    }
    f->ip++;
    return;
  }
  case Instruction::GetElementPtr: {
    Val p = get(f, k.a);
    uint64_t cst = p.e ? 0 : p.c;
    E acc = p.e;
    cst += (uint64_t)k.off;
    for (size_t i = 0; i < k.xs.size(); i++) {
      const Val &x = get(f, k.xs[i]);
      uint64_t sz = k.ys[2 * i]; unsigned w = (unsigned)k.ys[2 * i + 1];
      if (!x.e) { cst += (uint64_t)sext64(x.c, w) * sz; continue; }
      E t = w < 64 ? mkSExt(x.e, 64) : x.e;
      if (sz != 1) t = mkBin(Op::Mul, t, mkConst(sz, 64));
      acc = acc ? mkBin(Op::Add, acc, t) : t;
    }
    if (!acc) f->regs[k.dst] = Val(cst);
    else f->regs[k.dst] = Val(cst ? mkBin(Op::Add, acc, mkConst(cst, 64)) : acc);
    f->ip++;
    return;
  }
  case Instruction::ICmp: {
    if (k.nd != 1) { // vector compare
      const auto &cs = comps(k.I->getOperand(0)->getType());
      for (int i = 0; i < k.nd; i++) f->regs[k.dst + i] = icmp(k.pred, get(f, k.a, i), get(f, k.b, i), cs[i].w);
    } else {
      if (k.w2 > 64) throw EngineError{"wide compare"};
      Val r = icmp(k.pred, get(f, k.a), get(f, k.b), k.w2);
      f->regs[k.dst] = r;
    }
    f->ip++;
    return;
  }
  case Instruction::FCmp: {
    double x = asD(get(f, k.a), k.w2), y = asD(get(f, k.b), k.w2);
    bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (k.pred) {
    case CmpInst::FCMP_OEQ: r = !un && x == y; break;
    case CmpInst::FCMP_OGT: r = !un && x > y; break;
    case CmpInst::FCMP_OGE: r = !un && x >= y; break;
    case CmpInst::FCMP_OLT: r = !un && x < y; break;
    case CmpInst::FCMP_OLE: r = !un && x <= y; break;
    case CmpInst::FCMP_ONE: r = !un && x != y; break;
    case CmpInst::FCMP_ORD: r = !un; break;
    case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_UEQ: r = un || x == y; break;
    case CmpInst::FCMP_UGT: r = un || x > y; break;
    case CmpInst::FCMP_UGE: r = un || x >= y; break;
    case CmpInst::FCMP_ULT: r = un || x < y; break;
    case CmpInst::FCMP_ULE: r = un || x <= y; break;
    case CmpInst::FCMP_UNE: r = un || x != y; break;
    case CmpInst::FCMP_TRUE: r = true; break;
    default: r = false;
    }
    f->regs[k.dst] = Val((uint64_t)r);
    f->ip++;
    return;
  }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
    double x = asD(get(f, k.a), k.w), y = asD(get(f, k.b), k.w), r;
    r = k.opc == Instruction::FAdd ? x + y : k.opc == Instruction::FSub ? x - y : k.opc == Instruction::FMul ? x * y : x / y;
    f->regs[k.dst] = fromD(r, k.w);
    f->ip++;
    return;
  }
  case Instruction::FNeg: f->regs[k.dst] = fromD(-asD(get(f, k.a), k.w), k.w); f->ip++; return;
  case Instruction::FPExt: case Instruction::FPTrunc: f->regs[k.dst] = fromD(asD(get(f, k.a), k.w2), k.w); f->ip++; return;
  case Instruction::UIToFP: { Val v = get(f, k.a); v = Val(concretize(s, v, k.w2)); f->regs[k.dst] = fromD((double)v.c, k.w); f->ip++; return; }
  case Instruction::SIToFP: { Val v = get(f, k.a); v = Val(concretize(s, v, k.w2)); f->regs[k.dst] = fromD((double)sext64(v.c, k.w2), k.w); f->ip++; return; }
  case Instruction::FPToUI: { double d = asD(get(f, k.a), k.w2); f->regs[k.dst] = Val((uint64_t)d & maskw(k.w)); f->ip++; return; }
  case Instruction::FPToSI: { double d = asD(get(f, k.a), k.w2); f->regs[k.dst] = Val((uint64_t)(int64_t)d & maskw(k.w)); f->ip++; return; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
    const auto &os = comps(k.I->getOperand(0)->getType());
    for (int i = 0; i < k.nd; i++) {
      Val v = get(f, k.a, i);
      unsigned wf = os[i].w, wt = (*k.comps)[i].w;
      if (wf > 64 || wt > 64) throw EngineError{"wide integer cast"};
      if (!v.e) {
        uint64_t r = k.opc == Instruction::SExt ? (uint64_t)sext64(v.c, wf) : v.c;
        f->regs[k.dst + i] = Val(r & maskw(wt));
      } else if (k.opc == Instruction::Trunc) f->regs[k.dst + i] = Val(mkExtract(v.e, 0, wt));
      else if (k.opc == Instruction::ZExt) f->regs[k.dst + i] = Val(mkZExt(v.e, wt));
      else f->regs[k.dst + i] = Val(mkSExt(v.e, wt));
    }
    f->ip++;
    return;
  }
  case Instruction::PtrToInt: case Instruction::IntToPtr: {
    Val v = get(f, k.a);
    if (v.e) {
      if (k.w < k.w2) v = Val(mkExtract(v.e, 0, k.w)); else if (k.w > k.w2) v = Val(mkZExt(v.e, k.w));
    } else v.c &= maskw(k.w);
    f->regs[k.dst] = v;
    f->ip++;
    return;
  }
  case Instruction::BitCast: {
    const auto &os = comps(k.I->getOperand(0)->getType());
    if (os.size() == (size_t)k.nd) {
      for (int i = 0; i < k.nd; i++) { Val v = get(f, k.a, i); f->regs[k.dst + i] = v; }
    } else if (os.size() == 1) { // scalar to vector
      Val v = get(f, k.a);
      unsigned lo = 0;
      for (int i = 0; i < k.nd; i++) {
        unsigned w = (*k.comps)[i].w;
        f->regs[k.dst + i] = v.e ? Val(mkExtract(v.e, lo, w)) : Val((v.c >> lo) & maskw(w));
        lo += w;
      }
    } else if (k.nd == 1) {
      E acc = nullptr;
      for (size_t i = 0; i < os.size(); i++) { E x = toE(get(f, k.a, (int)i), os[i].w); acc = acc ? mkConcat(x, acc) : x; }
      f->regs[k.dst] = Val(acc);
    } else throw EngineError{"vector bitcast"};
    f->ip++;
    return;
  }
  case Instruction::Freeze: case Instruction::AddrSpaceCast:
    for (int i = 0; i < k.nd; i++) { Val v = get(f, k.a, i); f->regs[k.dst + i] = v; }
    f->ip++;
    return;
  case Instruction::Select: {
    for (int i = 0; i < k.nd; i++) {
      Val c = get(f, k.a, k.w2 > 1 ? i : 0);
      Val a = get(f, k.b, i), b = get(f, k.c, i);
      Val r;
      if (!c.e) r = (c.c & 1) ? a : b;
      else if (s.mergeMode == 0 && (*k.comps)[i].w == 64) r = decide(s, c.e) ? a : b;
      else r = Val(mkIte(c.e, toE(a, (*k.comps)[i].w), toE(b, (*k.comps)[i].w)));
      f->regs[k.dst + i] = r;
    }
    f->ip++;
    return;
  }
  case Instruction::ExtractValue:
    for (int i = 0; i < k.nd; i++) { Val v = get(f, k.a, (int)k.off + i); f->regs[k.dst + i] = v; }
    f->ip++;
    return;
  case Instruction::InsertValue: {
    for (int i = 0; i < k.nd; i++) {
      Val v = (i >= k.off && i < k.off + k.c) ? get(f, k.b, i - (int)k.off) : get(f, k.a, i);
      f->regs[k.dst + i] = v;
    }
    f->ip++;
    return;
  }
  case Instruction::ExtractElement: {
    uint64_t i = concretize(s, get(f, k.b), 64);
    Val v = get(f, k.a, (int)i);
    f->regs[k.dst] = v;
    f->ip++;
    return;
  }
  case Instruction::InsertElement: {
    uint64_t j = concretize(s, get(f, k.c), 64);
    for (int i = 0; i < k.nd; i++) { Val v = (uint64_t)i == j ? get(f, k.b) : get(f, k.a, i); f->regs[k.dst + i] = v; }
    f->ip++;
    return;
  }
  case Instruction::ShuffleVector: {
    for (int i = 0; i < k.nd; i++) {
      int m = k.xs[i];
      Val v = m < 0 ? Val((uint64_t)0) : m < k.off ? get(f, k.a, m) : get(f, k.b, m - (int)k.off);
      f->regs[k.dst + i] = v;
    }
    f->ip++;
    return;
  }
  case Instruction::Fence: f->ip++; return;
  case Instruction::AtomicRMW: {
    if (s.mt && cast<AtomicRMWInst>(k.I)->getOrdering() == AtomicOrdering::SequentiallyConsistent && !syncPoint(s, Pend::Yield, 0)) return;
    Val p = get(f, k.a);
    if (p.e) p = Val(concretize(s, p, 64));
    Val o = load(s, p, k.w), b = get(f, k.b), n;
    switch (k.pred) {
    case AtomicRMWInst::Xchg: n = b; break;
    case AtomicRMWInst::Add: n = binop(s, Instruction::Add, o, b, k.w); break;
    case AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, o, b, k.w); break;
    case AtomicRMWInst::And: n = binop(s, Instruction::And, o, b, k.w); break;
    case AtomicRMWInst::Or: n = binop(s, Instruction::Or, o, b, k.w); break;
    case AtomicRMWInst::Xor: n = binop(s, Instruction::Xor, o, b, k.w); break;
    default: throw EngineError{"atomicrmw operation"};
    }
    // Reference counts order no more than they have to (libstdc++ happens to use stronger operations): taking a reference
    // orders nothing, releasing one is a release, releasing the last one an acquire as well.
    if (s.mt && refCount(k.I)) {
      if (!b.e && b.c == maskw(k.w)) {
        auto &m = s.mtx[p.c | (1ull << 63)]; auto &t = s.th[s.cur];
        if (o.e || o.c == 1) t.vc.join(m.vc);
        m.vc.join(t.vc); t.vc.v[s.cur]++;
      }
    } else if (s.mt) { auto &m = s.mtx[p.c | (1ull << 63)]; auto &t = s.th[s.cur]; t.vc.join(m.vc); m.vc = t.vc; t.vc.v[s.cur]++; }
    store(s, p, n, k.w);
    f->regs[k.dst] = o;
    f->ip++;
    return;
  }
  case Instruction::AtomicCmpXchg: {
    if (s.mt && cast<AtomicCmpXchgInst>(k.I)->getSuccessOrdering() == AtomicOrdering::SequentiallyConsistent && !syncPoint(s, Pend::Yield, 0)) return;
    Val p = get(f, k.a);
    if (p.e) p = Val(concretize(s, p, 64));
    unsigned w = (*k.comps)[0].w;
    Val o = load(s, p, w), c = get(f, k.b), n = get(f, k.c);
    Val eq = icmp(CmpInst::ICMP_EQ, o, c, w);
    bool b = decideV(s, eq);
    if (s.mt && !refCount(k.I)) { auto &m = s.mtx[p.c | (1ull << 63)]; auto &t = s.th[s.cur]; t.vc.join(m.vc); m.vc = t.vc; t.vc.v[s.cur]++; }
    if (b) store(s, p, n, w);
    f->regs[k.dst] = o;
    f->regs[k.dst + 1] = Val((uint64_t)b);
    f->ip++;
    return;
  }
  default:
    if (k.I->isBinaryOp()) {
      if (k.nd == 1) {
        Val r = binop(s, k.opc, get(f, k.a), get(f, k.b), k.w);
        f->regs[k.dst] = r;
      } else
        for (int i = 0; i < k.nd; i++) { Val r = binop(s, k.opc, get(f, k.a, i), get(f, k.b, i), (*k.comps)[i].w); f->regs[k.dst + i] = r; }
      f->ip++;
      return;
    }
    throw EngineError{std::string("unsupported instruction ") + k.I->getOpcodeName() + " in " + f->fn->dem};
  }
}

// ---------------------------------------------------------------- calls
void Engine::finishCall(State &s, Frame *f, KInst &k) {
  if (k.opc == Instruction::Invoke) jump(s, f, k.t0);
  else f->ip++;
}

void Engine::pushFrame(State &s, Function *fn, const std::vector<Val> &args, KInst *) {
  KFunc *k = kf(fn);
  k->calls++;
  if (s.stack().size() > 2000) fail(s, "stack", "call stack deeper than 2000 frames");
  // variadic definitions: the extra arguments are ignored (va_start is not supported)
  Ref<Frame> fr(new Frame);
  fr->fn = k;
  fr->regs.resize(k->nregs);
  size_t j = 0;
  for (size_t i = 0; i < k->args.size(); i++) {
    Argument *a = fn->getArg((unsigned)i);
    if (a->hasByValAttr()) {
      uint64_t n = DL.getTypeAllocSize(a->getParamByValType());
      uint64_t d = alloc(s, n, OK::Stack, true, "byval", 16);
      fr->allocas.push_back(d);
      memcpyC(s, Val(d), args.at(j), n, false);
      fr->regs[k->args[i].first] = Val(d);
      j++;
      continue;
    }
    for (int c = 0; c < k->args[i].second; c++) fr->regs[k->args[i].first + c] = j < args.size() ? args[j++] : Val((uint64_t)0);
  }
  s.stack().push_back(std::move(fr));
}

void Engine::doCall(State &s, Frame *f, KInst &k) {
  if (k.pred == 1) {
    // inline assembly: only empty barriers
    f->ip++;
    return;
  }
  std::vector<Val> args;
  Function *fn = k.callee;
  if (!fn) {
    Val p = get(f, k.a);
    uint64_t a = concretize(s, p, 64);
    auto it = faddr.find(a);
    if (it == faddr.end()) fail(s, "badcall", a == 0 ? "call through a null function pointer" : "call through an invalid function pointer");
    fn = it->second;
  }
  for (size_t i = 0; i < k.xs.size(); i++)
    for (uint64_t c = 0; c < k.ys[i]; c++) args.push_back(get(f, k.xs[i], (int)c));
  if (fn->isIntrinsic()) {
    if (intrinsic(s, f, k, args)) finishCall(s, f, k);
    return;
  }
  if (fn->isDeclaration()) {
    auto it = nat.find(fn->getName().str());
    if (it == nat.end()) throw EngineError{"call of unknown external function " + fn->getName().str() + " in " + f->fn->dem};
    if (it->second(s, f, k, args)) finishCall(s, f, k);
    return;
  }
  pushFrame(s, fn, args, &k);
}

void Engine::doReturn(State &s, const std::vector<Val> &rv) {
  Frame *f = s.top();
  for (uint64_t a : f->allocas) removeObj(s, a);
  s.stack().pop_back();
  if (s.stack().empty()) { threadDone(s); return; }
  Frame *c = s.top();
  KInst &k = c->fn->blocks[c->block].ins[c->ip];
  if (k.dst >= 0)
    for (int i = 0; i < k.nd && i < (int)rv.size(); i++) c->regs[k.dst + i] = rv[i];
  finishCall(s, c, k);
  s.at = 2;
}

bool Engine::intrinsic(State &s, Frame *f, KInst &k, std::vector<Val> &a) {
  auto id = cast<CallBase>(k.I)->getIntrinsicID();
  unsigned w = k.w;
  auto u = [&](int i) { return get(f, k.xs[i]); };
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    uint64_t n = concretize(s, a[2], 64);
    if (n) memcpyC(s, a[0], a[1], n, id == Intrinsic::memmove);
    return true;
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    uint64_t n = concretize(s, a[2], 64);
    if (n) memsetC(s, a[0], a[1], n);
    return true;
  }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start:
  case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
    if (k.dst >= 0) f->regs[k.dst] = Val((uint64_t)0);
    return true;
  case Intrinsic::stacksave: f->regs[k.dst] = Val((uint64_t)0); return true;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address:
  case Intrinsic::annotation: case Intrinsic::expect_with_probability: case Intrinsic::ptr_annotation:
    f->regs[k.dst] = a[0];
    return true;
  case Intrinsic::is_constant: f->regs[k.dst] = Val((uint64_t)0); return true;
  case Intrinsic::objectsize: f->regs[k.dst] = Val((a[1].c & 1) ? (uint64_t)0 : maskw(w)); return true;
  case Intrinsic::trap: case Intrinsic::debugtrap: fail(s, "trap", "undefined behaviour trap");
  case Intrinsic::ubsantrap: fail(s, "ubsan", "undefined behaviour (UBSan check " + std::to_string(a[0].c) + ")");
  case Intrinsic::eh_typeid_for: {
    uint64_t ti = a[0].c;
    auto it = typeIds.find(ti);
    if (it == typeIds.end()) it = typeIds.insert({ti, (int)typeIds.size() + 1}).first;
    f->regs[k.dst] = Val((uint64_t)it->second);
    return true;
  }
  default: break;
  }
  if (k.nd > 1 && !(k.nd == 2)) throw EngineError{"vector intrinsic"};
  auto bin = [&](unsigned o) { return binop(s, o, u(0), u(1), w); };
  auto sel = [&](const Val &c, const Val &x, const Val &y, unsigned ww) -> Val {
    if (!c.e) return (c.c & 1) ? x : y;
    return Val(mkIte(c.e, toE(x, ww), toE(y, ww)));
  };
  switch (id) {
  case Intrinsic::smax: { Val r = sel(icmp(CmpInst::ICMP_SGT, u(0), u(1), w), u(0), u(1), w); f->regs[k.dst] = r; return true; }
  case Intrinsic::smin: { Val r = sel(icmp(CmpInst::ICMP_SLT, u(0), u(1), w), u(0), u(1), w); f->regs[k.dst] = r; return true; }
  case Intrinsic::umax: { Val c = icmp(CmpInst::ICMP_UGT, u(0), u(1), w); if (c.e && w == 64 && s.mergeMode == 0) c = Val((uint64_t)decide(s, c.e)); Val r = sel(c, u(0), u(1), w); f->regs[k.dst] = r; return true; }
  case Intrinsic::umin: { Val c = icmp(CmpInst::ICMP_ULT, u(0), u(1), w); if (c.e && w == 64 && s.mergeMode == 0) c = Val((uint64_t)decide(s, c.e)); Val r = sel(c, u(0), u(1), w); f->regs[k.dst] = r; return true; }
  case Intrinsic::abs: {
    Val n = binop(s, Instruction::Sub, Val((uint64_t)0), u(0), w);
    Val r = sel(icmp(CmpInst::ICMP_SLT, u(0), Val((uint64_t)0), w), n, u(0), w);
    f->regs[k.dst] = r; return true;
  }
  case Intrinsic::bswap: {
    E e = toE(u(0), w), r = nullptr;
    for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; }
    f->regs[k.dst] = Val(r); return true;
  }
  case Intrinsic::bitreverse: {
    E e = toE(u(0), w), r = nullptr;
    for (unsigned i = 0; i < w; i++) { E b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; }
    f->regs[k.dst] = Val(r); return true;
  }
  case Intrinsic::ctpop: {
    E e = toE(u(0), w), r = mkConst(0, w);
    for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(e, i, 1), w));
    f->regs[k.dst] = Val(r); return true;
  }
  case Intrinsic::ctlz: case Intrinsic::cttz: {
    E e = toE(u(0), w), r = mkConst(w, w);
    if (id == Intrinsic::cttz) for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r);
    else for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r);
    f->regs[k.dst] = Val(r); return true;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Val x = u(0), y = u(1), n = u(2);
    uint64_t sh = concretize(s, n, w) % w;
    E ex = toE(x, w), ey = toE(y, w), r;
    if (id == Intrinsic::fshl) r = sh == 0 ? ex : mkBin(Op::Or, mkBin(Op::Shl, ex, mkConst(sh, w)), mkBin(Op::LShr, ey, mkConst(w - sh, w)));
    else r = sh == 0 ? ey : mkBin(Op::Or, mkBin(Op::Shl, ex, mkConst(w - sh, w)), mkBin(Op::LShr, ey, mkConst(sh, w)));
    f->regs[k.dst] = Val(r); return true;
  }
  case Intrinsic::uadd_sat: { Val r = bin(Instruction::Add); r = sel(icmp(CmpInst::ICMP_ULT, r, u(0), w), Val(maskw(w)), r, w); f->regs[k.dst] = r; return true; }
  case Intrinsic::usub_sat: { Val r = bin(Instruction::Sub); r = sel(icmp(CmpInst::ICMP_ULT, u(0), u(1), w), Val((uint64_t)0), r, w); f->regs[k.dst] = r; return true; }
  case Intrinsic::uadd_with_overflow: {
    Val r = bin(Instruction::Add); Val o = icmp(CmpInst::ICMP_ULT, r, u(0), w);
    f->regs[k.dst] = r; f->regs[k.dst + 1] = o; return true;
  }
  case Intrinsic::usub_with_overflow: {
    Val r = bin(Instruction::Sub); Val o = icmp(CmpInst::ICMP_ULT, u(0), u(1), w);
    f->regs[k.dst] = r; f->regs[k.dst + 1] = o; return true;
  }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    bool add = id == Intrinsic::sadd_with_overflow;
    Val r = bin(add ? Instruction::Add : Instruction::Sub);
    E x = mkExtract(toE(u(0), w), w - 1, 1), y = mkExtract(toE(u(1), w), w - 1, 1), z = mkExtract(toE(r, w), w - 1, 1);
    E o = add ? mkAndB(mkEq(x, y), mkNot(mkEq(x, z))) : mkAndB(mkNot(mkEq(x, y)), mkNot(mkEq(x, z)));
    f->regs[k.dst] = r; f->regs[k.dst + 1] = Val(o); return true;
  }
  case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    Val r = bin(Instruction::Mul);
    Val o;
    if (w <= 32) {
      bool sg = id == Intrinsic::smul_with_overflow;
      E x = toE(u(0), w), y = toE(u(1), w);
      E p = mkBin(Op::Mul, sg ? mkSExt(x, 2 * w) : mkZExt(x, 2 * w), sg ? mkSExt(y, 2 * w) : mkZExt(y, 2 * w));
      E q = sg ? mkSExt(toE(r, w), 2 * w) : mkZExt(toE(r, w), 2 * w);
      o = Val(mkNot(mkEq(p, q)));
    } else if (id == Intrinsic::umul_with_overflow) {
      Val x = u(0), y = u(1);
      if (x.e && y.e) throw EngineError{"64-bit symbolic multiplication overflow check"};
      if (x.e) std::swap(x, y);
      if (x.c == 0) o = Val((uint64_t)0);
      else o = icmp(CmpInst::ICMP_ULT, Val(maskw(w) / x.c), y, w);
    } else {
      Val x = u(0), y = u(1);
      if (!x.e && !y.e) { int64_t t; o = Val((uint64_t)__builtin_mul_overflow(sext64(x.c, w), sext64(y.c, w), &t)); }
      else throw EngineError{"64-bit signed multiplication overflow check"};
    }
    f->regs[k.dst] = r; f->regs[k.dst + 1] = o; return true;
  }
  default: break;
  }
  throw EngineError{"unsupported intrinsic " + std::string(cast<CallBase>(k.I)->getCalledFunction()->getName())};
}

} // namespace sx
