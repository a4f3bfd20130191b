// symx: symbolic executor for LLVM bitcode - core.
#include "exec.h"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cstdio>
#include <cxxabi.h>
#include <fstream>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Operator.h>
#include <sys/resource.h>

using namespace llvm;

namespace sx {

E g_uninit = nullptr;
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
const char *Engine::pool(const std::string &s) {
  auto it = strPool.find(s);
  if (it != strPool.end()) return it->second;
  char *p = strdup(s.c_str());
  strPool[s] = p;
  return p;
}
static std::string demangle(const std::string &n) {
  int st = 0;
  char *d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
  std::string r = st == 0 && d ? d : n;
  free(d);
  return r;
}

Engine::Engine(std::unique_ptr<Module> m, Options o)
    : opt(o), M(std::move(m)), DL(M->getDataLayout()), solver(o.solverTimeout) {
  g_uninit = mkVar("<uninit-sentinel>", 8, true);
  rng = o.seed * 0x9E3779B97F4A7C15ull + 12345;
  initNatives();
}

// ---------------------------------------------------------------- types and constants
const std::vector<Comp> &Engine::comps(Type *T) {
  auto it = compCache.find(T);
  if (it != compCache.end()) return it->second;
  std::vector<Comp> r;
  std::function<void(Type *, uint64_t)> rec = [&](Type *t, uint64_t off) {
    if (t->isVoidTy()) return;
    if (auto *st = dyn_cast<StructType>(t)) {
      const StructLayout *sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) rec(st->getElementType(i), off + sl->getElementOffset(i));
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
      uint64_t sz = DL.getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) rec(at->getElementType(), off + i * sz);
    } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      uint64_t sz = DL.getTypeAllocSize(vt->getElementType());
      for (uint64_t i = 0; i < vt->getNumElements(); i++) rec(vt->getElementType(), off + i * sz);
    } else if (t->isPointerTy()) r.push_back({(uint32_t)off, 64, false});
    else if (t->isIntegerTy()) {
      unsigned w = t->getIntegerBitWidth();
      r.push_back({(uint32_t)off, (uint16_t)w, false});
    } else if (t->isDoubleTy()) r.push_back({(uint32_t)off, 64, true});
    else if (t->isFloatTy()) r.push_back({(uint32_t)off, 32, true});
    else if (t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) return;
    else r.push_back({(uint32_t)off, 999, true});
  };
  rec(T, 0);
  return compCache[T] = r;
}

uint64_t Engine::constAddr(Constant *C) {
  std::vector<Val> v;
  flattenConst(C, v);
  return v.at(0).c;
}

void Engine::flattenConst(Constant *C, std::vector<Val> &out) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) {
    if (ci->getBitWidth() > 64) out.push_back(Val(ci->getValue().extractBitsAsZExtValue(64, 0)));
    else out.push_back(Val(ci->getZExtValue()));
    return;
  }
  if (isa<ConstantPointerNull>(C)) { out.push_back(Val((uint64_t)0)); return; }
  if (auto *gv = dyn_cast<GlobalValue>(C)) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) { flattenConst(ga->getAliasee(), out); return; }
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) throw EngineError{"no address for global " + gv->getName().str()};
    out.push_back(Val(it->second));
    return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(C)) { out.push_back(Val(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
    for (size_t i = 0; i < comps(C->getType()).size(); i++) out.push_back(Val((uint64_t)0));
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(C)) {
    for (unsigned i = 0; i < ca->getNumOperands(); i++) flattenConst(ca->getOperand(i), out);
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
    for (unsigned i = 0; i < cd->getNumElements(); i++) flattenConst(cd->getElementAsConstant(i), out);
    return;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(DL, off)) throw EngineError{"constant GEP"};
      uint64_t b = constAddr(cast<Constant>(gep->getPointerOperand()));
      out.push_back(Val(b + off.getZExtValue()));
      return;
    }
    auto op = [&](int i) { return constAddr(cast<Constant>(ce->getOperand(i))); };
    unsigned w = comps(ce->getType()).at(0).w;
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt:
      out.push_back(Val(op(0) & maskw(w))); return;
    case Instruction::Add: out.push_back(Val((op(0) + op(1)) & maskw(w))); return;
    case Instruction::Sub: out.push_back(Val((op(0) - op(1)) & maskw(w))); return;
    case Instruction::Xor: out.push_back(Val((op(0) ^ op(1)) & maskw(w))); return;
    default: break;
    }
    std::string t; raw_string_ostream os(t); ce->print(os);
    throw EngineError{"constant expression " + os.str()};
  }
  std::string t; raw_string_ostream os(t); C->print(os);
  throw EngineError{"constant " + os.str()};
}

int Engine::constOp(Constant *C) {
  auto it = constIdx.find(C);
  if (it != constIdx.end()) return it->second;
  int idx = (int)consts.size();
  std::vector<Val> v;
  flattenConst(C, v);
  if (v.empty()) v.push_back(Val((uint64_t)0));
  for (auto &x : v) consts.push_back(x);
  return constIdx[C] = -idx - 1;
}

void Engine::writeConst(Obj *o, uint64_t off, Constant *C) {
  std::vector<Val> v;
  const auto &cs = comps(C->getType());
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = cd->getRawDataValues();
    memcpy(o->c.data() + off, raw.data(), raw.size());
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(C)) {
    if (auto *st = dyn_cast<StructType>(C->getType())) {
      const StructLayout *sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), ca->getOperand(i));
    } else {
      Type *et = isa<ArrayType>(C->getType()) ? cast<ArrayType>(C->getType())->getElementType() : cast<FixedVectorType>(C->getType())->getElementType();
      uint64_t sz = DL.getTypeAllocSize(et);
      for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + i * sz, ca->getOperand(i));
    }
    return;
  }
  if (auto *ci = dyn_cast<ConstantInt>(C)) {
    unsigned n = (ci->getBitWidth() + 7) / 8;
    APInt x = ci->getValue().zext(n * 8 + 8);
    for (unsigned i = 0; i < n; i++) o->c[off + i] = (uint8_t)x.extractBitsAsZExtValue(8, i * 8);
    return;
  }
  flattenConst(C, v);
  unsigned n = (cs.at(0).w + 7) / 8;
  for (unsigned i = 0; i < n; i++) o->c[off + i] = (uint8_t)(v[0].c >> (8 * i));
}

void Engine::initGlobals(State &s) {
  uint64_t fa = 0x10000000ull;
  for (Function &f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
  std::vector<std::pair<GlobalVariable *, uint64_t>> gs;
  for (GlobalVariable &g : M->globals()) {
    uint64_t n = g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
    if (!g.hasInitializer()) n = std::max<uint64_t>(n, 128);
    uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16);
    nextGlobal = (nextGlobal + al - 1) / al * al;
    gaddr[&g] = nextGlobal;
    gvByAddr[nextGlobal] = &g;
    gs.push_back({&g, n});
    nextGlobal += n + 32;
  }
  for (auto &p : gs) {
    Obj *o = new Obj(gaddr[p.first], p.second, OK::Global, false);
    o->what = pool(p.first->getName().str());
    if (p.first->hasInitializer()) writeConst(o, 0, p.first->getInitializer());
    o->ro = p.first->isConstant() && p.first->hasInitializer();
    if (o->ro) gobjs.push_back(Ref<Obj>(o));
    else s.objs.push_back(Ref<Obj>(o));
  }
  auto vt = [&](const char *n) -> uint64_t {
    GlobalVariable *g = M->getGlobalVariable(n, true);
    return g ? gaddr[g] + 16 : 1;
  };
  siVt = vt("_ZTVN10__cxxabiv120__si_class_type_infoE");
  vmiVt = vt("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  ptrVt = vt("_ZTVN10__cxxabiv119__pointer_type_infoE");
}

// ---------------------------------------------------------------- function preparation
void Engine::computeIpdom(KFunc *k) {
  size_t n = k->blocks.size();
  std::vector<std::vector<int>> succ(n);
  std::vector<bool> isRet(n, false);
  for (size_t i = 0; i < n; i++) {
    KInst &t = k->blocks[i].ins.back();
    if (t.opc == Instruction::Ret) isRet[i] = true;
    else if (t.opc == Instruction::Br) { succ[i].push_back(t.t0); if (t.t1 >= 0) succ[i].push_back(t.t1); }
    else if (t.opc == Instruction::Switch) { for (int x : t.xs) succ[i].push_back(x); succ[i].push_back(t.t0); }
    else if (t.opc == Instruction::Invoke) succ[i].push_back(t.t0);
  }
  bool ch = true;
  for (size_t i = 0; i < n; i++) k->blocks[i].reachesRet = isRet[i];
  while (ch) {
    ch = false;
    for (size_t i = n; i-- > 0;)
      if (!k->blocks[i].reachesRet)
        for (int x : succ[i]) if (k->blocks[x].reachesRet) { k->blocks[i].reachesRet = true; ch = true; break; }
  }
  // pdom sets
  std::vector<std::vector<bool>> pd(n, std::vector<bool>(n, true));
  ch = true;
  while (ch) {
    ch = false;
    for (size_t i = n; i-- > 0;) {
      if (!k->blocks[i].reachesRet) continue;
      std::vector<bool> r(n, !isRet[i]);
      if (!isRet[i]) {
        bool first = true;
        for (int x : succ[i]) {
          if (!k->blocks[x].reachesRet) continue;
          if (first) { r = pd[x]; first = false; }
          else for (size_t j = 0; j < n; j++) r[j] = r[j] && pd[x][j];
        }
      }
      r[i] = true;
      if (r != pd[i]) { pd[i] = r; ch = true; }
    }
  }
  for (size_t i = 0; i < n; i++) {
    k->blocks[i].ipdom = -1;
    if (!k->blocks[i].reachesRet) continue;
    size_t best = 0;
    for (size_t j = 0; j < n; j++)
      if (j != i && pd[i][j] && k->blocks[j].reachesRet) {
        size_t c = std::count(pd[j].begin(), pd[j].end(), true);
        if (c > best) { best = c; k->blocks[i].ipdom = (int)j; }
      }
  }
}

void Engine::liveness(KFunc *k) {
  // backward liveness of register slots at block starts (after phis)
  size_t n = k->blocks.size();
  std::vector<std::vector<bool>> in(n, std::vector<bool>(k->nregs, false));
  std::unordered_map<const Value *, std::pair<int, int>> slot;
  for (size_t i = 0; i < n; i++) for (KInst &x : k->blocks[i].ins) if (x.dst >= 0) slot[x.I] = {x.dst, x.nd};
  { unsigned ai = 0; for (auto &a : k->f->args()) { slot[&a] = k->args[ai]; ai++; } }
  std::vector<BasicBlock *> bbs; std::unordered_map<BasicBlock *, int> bi;
  for (auto &b : *k->f) { bi[&b] = (int)bbs.size(); bbs.push_back(&b); }
  std::unordered_map<const Value *, std::pair<int, int>> phiSlot;
  for (auto &b : *k->f) {
    auto &tabs = k->blocks[bi[&b]].phis;
    if (tabs.empty()) continue;
    auto &tab = tabs.begin()->second;
    size_t j = 0;
    for (auto &ph : b.phis()) { if (j < tab.size()) phiSlot[&ph] = {tab[j].dst, tab[j].n}; j++; }
  }
  auto mark = [&](Value *v, std::vector<bool> &l, bool on) {
    auto it = slot.find(v);
    if (it == slot.end()) { it = phiSlot.find(v); if (it == phiSlot.end()) return; }
    for (int x = 0; x < it->second.second; x++) l[it->second.first + x] = on;
  };
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = n; i-- > 0;) {
      std::vector<bool> l(k->nregs, false);
      for (BasicBlock *sb : successors(bbs[i])) {
        int si = bi[sb];
        std::vector<bool> t = in[si];
        for (auto &ph : sb->phis()) mark(&ph, t, false);
        for (auto &ph : sb->phis()) mark(ph.getIncomingValueForBlock(bbs[i]), t, true);
        for (int x = 0; x < k->nregs; x++) if (t[x]) l[x] = true;
      }
      for (auto it = bbs[i]->rbegin(); it != bbs[i]->rend(); ++it) {
        Instruction &I = *it;
        if (isa<PHINode>(I)) break;
        mark(&I, l, false);
        for (Use &u : I.operands()) mark(u.get(), l, true);
      }
      if (l != in[i]) { in[i] = l; ch = true; }
    }
  }
  k->live = std::move(in);
}

KFunc *Engine::kf(Function *f) {
  auto it = kfuncs.find(f);
  if (it != kfuncs.end()) return it->second;
  KFunc *k = new KFunc;
  kfuncs[f] = k;
  k->f = f;
  k->name = f->getName().str();
  k->dem = demangle(k->name);
  if (DISubprogram *sp = f->getSubprogram()) {
    std::string fn = sp->getFilename().str();
    if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
    k->file = fn;
    k->inRepo = fn.compare(0, opt.repoPrefix.size(), opt.repoPrefix) == 0;
  }
  std::unordered_map<const Value *, int> slot;
  auto newSlot = [&](const Value *v, const std::vector<Comp> &cs) {
    int b = k->nregs;
    slot[v] = b;
    for (auto &c : cs) k->rw.push_back((uint8_t)std::min<int>(c.w, 64));
    k->nregs += (int)cs.size();
    return b;
  };
  for (auto &a : f->args()) {
    auto &cs = comps(a.getType());
    int b = newSlot(&a, cs);
    k->args.push_back({b, (int)cs.size()});
  }
  std::unordered_map<const BasicBlock *, int> bi;
  int nb = 0;
  for (auto &b : *f) {
    bi[&b] = nb++;
    for (auto &I : b) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) newSlot(&I, comps(I.getType()));
  }
  k->blocks.resize(nb);
  auto opnd = [&](Value *v) -> int {
    if (auto *c = dyn_cast<Constant>(v)) return constOp(c);
    auto i2 = slot.find(v);
    if (i2 == slot.end()) return constOp(ConstantInt::get(Type::getInt64Ty(M->getContext()), 0)); // metadata etc.
    return i2->second;
  };
  auto width = [&](Type *t) -> uint8_t {
    auto &cs = comps(t);
    if (cs.empty()) return 0;
    return cs[0].w > 64 ? 255 : (uint8_t)cs[0].w;
  };
  for (auto &b : *f) {
    KBlock &kb = k->blocks[bi[&b]];
    for (auto &I : b) {
      if (auto *ph = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
          int pi = bi[ph->getIncomingBlock(i)];
          auto &tab = kb.phis[pi];
          KPhi kp{slot[ph], (int)comps(ph->getType()).size(), opnd(ph->getIncomingValue(i))};
          bool dup = false;
          for (auto &x : tab) if (x.dst == kp.dst) dup = true;
          if (!dup) tab.push_back(kp);
        }
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      KInst ki;
      ki.I = &I;
      ki.opc = I.getOpcode();
      if (!I.getType()->isVoidTy()) {
        ki.dst = slot.count(&I) ? slot[&I] : -1;
        ki.nd = (int)comps(I.getType()).size();
        ki.w = width(I.getType());
        ki.comps = &comps(I.getType());
        ki.fp = I.getType()->isFPOrFPVectorTy();
      }
      switch (ki.opc) {
      case Instruction::Ret:
        ki.a = I.getNumOperands() ? opnd(I.getOperand(0)) : 0;
        ki.nd = I.getNumOperands() ? (int)comps(I.getOperand(0)->getType()).size() : 0;
        break;
      case Instruction::Br: {
        auto *br = cast<BranchInst>(&I);
        if (br->isConditional()) { ki.a = opnd(br->getCondition()); ki.t0 = bi[br->getSuccessor(0)]; ki.t1 = bi[br->getSuccessor(1)]; }
        else { ki.t0 = bi[br->getSuccessor(0)]; }
        break;
      }
      case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(&I);
        ki.a = opnd(sw->getCondition());
        ki.w2 = width(sw->getCondition()->getType());
        ki.t0 = bi[sw->getDefaultDest()];
        for (auto &c : sw->cases()) { ki.xs.push_back(bi[c.getCaseSuccessor()]); ki.ys.push_back(c.getCaseValue()->getZExtValue()); }
        break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto *cb = cast<CallBase>(&I);
        ki.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
        if (isa<InlineAsm>(cb->getCalledOperand())) { ki.pred = 1; }
        else if (!ki.callee) ki.a = opnd(cb->getCalledOperand());
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          Value *a = cb->getArgOperand(i);
          ki.xs.push_back(a->getType()->isMetadataTy() ? constOp(ConstantInt::get(Type::getInt64Ty(M->getContext()), 0)) : opnd(a));
          ki.ys.push_back(comps(a->getType()).size());
        }
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { ki.t0 = bi[iv->getNormalDest()]; ki.t1 = bi[iv->getUnwindDest()]; }
        break;
      }
      case Instruction::GetElementPtr: {
        auto *gep = cast<GetElementPtrInst>(&I);
        if (I.getType()->isVectorTy()) throw EngineError{"vector GEP in " + k->dem};
        ki.a = opnd(gep->getPointerOperand());
        for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
          Value *idx = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) {
            ki.off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          } else {
            uint64_t sz = DL.getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(idx)) ki.off += ci->getSExtValue() * (int64_t)sz;
            else { ki.xs.push_back(opnd(idx)); ki.ys.push_back(sz); ki.ys.push_back(width(idx->getType())); }
          }
        }
        break;
      }
      case Instruction::Alloca: {
        auto *al = cast<AllocaInst>(&I);
        ki.a = opnd(al->getArraySize());
        ki.off = (int64_t)DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue();
        ki.pred = (int)al->getAlign().value();
        break;
      }
      case Instruction::Load: ki.a = opnd(I.getOperand(0)); ki.pred = cast<LoadInst>(&I)->isAtomic() + (cast<LoadInst>(&I)->getOrdering() == AtomicOrdering::SequentiallyConsistent); break;
      case Instruction::Store:
        ki.a = opnd(I.getOperand(1)); ki.b = opnd(I.getOperand(0));
        ki.comps = &comps(I.getOperand(0)->getType());
        ki.pred = cast<StoreInst>(&I)->isAtomic() + (cast<StoreInst>(&I)->getOrdering() == AtomicOrdering::SequentiallyConsistent);
        break;
      case Instruction::ICmp: case Instruction::FCmp:
        ki.pred = cast<CmpInst>(&I)->getPredicate();
        ki.a = opnd(I.getOperand(0)); ki.b = opnd(I.getOperand(1));
        ki.w2 = width(I.getOperand(0)->getType());
        break;
      case Instruction::ExtractValue: {
        auto *ev = cast<ExtractValueInst>(&I);
        ki.a = opnd(ev->getAggregateOperand());
        // flattened index
        Type *t = ev->getAggregateOperand()->getType(); int idx = 0;
        for (unsigned x : ev->indices()) {
          for (unsigned j = 0; j < x; j++) idx += (int)comps(isa<StructType>(t) ? cast<StructType>(t)->getElementType(j) : cast<ArrayType>(t)->getElementType()).size();
          t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(x) : cast<ArrayType>(t)->getElementType();
        }
        ki.off = idx;
        break;
      }
      case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(&I);
        ki.a = opnd(iv->getAggregateOperand()); ki.b = opnd(iv->getInsertedValueOperand());
        ki.c = (int)comps(iv->getInsertedValueOperand()->getType()).size();
        Type *t = iv->getAggregateOperand()->getType(); int idx = 0;
        for (unsigned x : iv->indices()) {
          for (unsigned j = 0; j < x; j++) idx += (int)comps(isa<StructType>(t) ? cast<StructType>(t)->getElementType(j) : cast<ArrayType>(t)->getElementType()).size();
          t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(x) : cast<ArrayType>(t)->getElementType();
        }
        ki.off = idx;
        break;
      }
      case Instruction::ExtractElement:
        ki.a = opnd(I.getOperand(0));
        ki.b = opnd(I.getOperand(1));
        break;
      case Instruction::InsertElement:
        ki.a = opnd(I.getOperand(0)); ki.b = opnd(I.getOperand(1)); ki.c = opnd(I.getOperand(2));
        break;
      case Instruction::ShuffleVector: {
        auto *sv = cast<ShuffleVectorInst>(&I);
        ki.a = opnd(I.getOperand(0)); ki.b = opnd(I.getOperand(1));
        ki.off = (int64_t)comps(I.getOperand(0)->getType()).size();
        for (int m : sv->getShuffleMask()) ki.xs.push_back(m);
        break;
      }
      case Instruction::AtomicRMW:
        ki.a = opnd(I.getOperand(0)); ki.b = opnd(I.getOperand(1));
        ki.pred = cast<AtomicRMWInst>(&I)->getOperation();
        break;
      case Instruction::AtomicCmpXchg:
        ki.a = opnd(I.getOperand(0)); ki.b = opnd(I.getOperand(1)); ki.c = opnd(I.getOperand(2));
        break;
      case Instruction::Select:
        ki.a = opnd(I.getOperand(0)); ki.b = opnd(I.getOperand(1)); ki.c = opnd(I.getOperand(2));
        ki.w2 = (uint8_t)comps(I.getOperand(0)->getType()).size();
        break;
      default:
        if (I.getNumOperands() > 0) { ki.a = opnd(I.getOperand(0)); ki.w2 = width(I.getOperand(0)->getType()); }
        if (I.getNumOperands() > 1) ki.b = opnd(I.getOperand(1));
        break;
      }
      kb.ins.push_back(std::move(ki));
    }
  }
  computeIpdom(k);
  return k;
}

// ---------------------------------------------------------------- decisions
void Engine::addPc(State &s, E c) {
  if (c->isConst()) return;
  if (c->op == Op::And && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; }
  for (E x : s.pc) if (x == c) return;
  s.pc.push_back(c);
}

bool Engine::mayBe(State &s, E c, Model *m) {
  double sec0 = g_ss.seconds;
  Res r = solver.check(s.pc, c, s.model, m);
  if (opt.verbose && g_ss.seconds > sec0) {
    static std::map<std::string, std::pair<int, double>> prof;
    static double last = 0;
    auto &p = prof[where(s, nullptr)];
    p.first++; p.second += g_ss.seconds - sec0;
    if (g_ss.seconds - last > 20) {
      last = g_ss.seconds;
      for (auto &kv : prof) if (kv.second.second > 0.5) fprintf(stderr, "symx: profile %6d %7.2f %s\n", kv.second.first, kv.second.second, kv.first.c_str());
      fprintf(stderr, "symx: last %s\n", exprStr(c, 6).substr(0, 600).c_str());
    }
  }
  if (opt.verbose && g_ss.seconds - sec0 > 0.05) {
    std::string full;
    std::string w = where(s, &full);
    fprintf(stderr, "symx: slow query %.2fs at %s pc=%zu vars=%zu\n  %s\n", g_ss.seconds - sec0, w.c_str(), s.pc.size(), varsOf(c).size(), exprStr(c, 5).substr(0, 600).c_str());
  }
  if (r == Res::Unknown) throw EngineError{"solver gave up"};
  return r == Res::Sat;
}

// Can two executions that differ only in uninitialised bytes disagree on c?
bool Engine::dependsOnUninit(State &s, E c) {
  bool any = false;
  for (uint32_t v : varsOf(c)) if (g_vars[v].internal) { any = true; break; }
  if (!any) return false;
  E q = mkBin(Op::Xor, c, renameInternal(c));
  for (E x : s.pc) { E y = renameInternal(x); if (y != x) q = mkAndB(q, y); }
  Model m;
  return mayBe(s, q, &m);
}

bool Engine::decide(State &s, E c) {
  if (c->isConst()) return c->v;
  bool cur = evalExpr(c, s.model);
  E other = cur ? mkNot(c) : c;
  Model om;
  if (!mayBe(s, other, &om)) return cur;
  if (opt.checkUninit && dependsOnUninit(s, c)) fail(s, "uninitialised", "a decision depends on uninitialised memory");
  throw ForkSignal{c, cur, std::move(om)};
}

uint64_t Engine::concretize(State &s, const Val &v, unsigned w) {
  if (!v.e) return v.c;
  for (;;) {
    uint64_t x = evalExpr(v.e, s.model);
    if (decide(s, mkEq(v.e, mkConst(x, w)))) return x;
  }
}

// ---------------------------------------------------------------- reporting
std::string Engine::where(State &s, std::string *full) {
  std::string first;
  auto &st = s.stack();
  for (size_t i = st.size(); i-- > 0;) {
    Frame *f = st[i].get();
    KBlock &b = f->fn->blocks[f->block];
    if (f->ip >= (int)b.ins.size()) continue;
    const DebugLoc &dl = b.ins[f->ip].I->getDebugLoc();
    std::string here;
    if (dl) {
      for (const DILocation *l = dl.get(); l; l = l->getInlinedAt()) {
        std::string fn = l->getFilename().str();
        size_t p = fn.rfind("/lib/");
        std::string sh = p == std::string::npos ? fn.substr(fn.rfind('/') == std::string::npos ? 0 : fn.rfind('/') + 1) : fn.substr(p + 1);
        std::string sp = l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName().str() : "";
        here = sh + ":" + std::to_string(l->getLine()) + " " + sp;
        if (first.empty() || (first.find("repo:") != 0 && fn.find(opt.repoPrefix) == 0)) {
          first = (fn.find(opt.repoPrefix) == 0 ? "repo:" : "") + here;
        }
        if (full) *full += "    " + here + "\n";
      }
    } else if (full) *full += "    " + f->fn->dem + "\n";
  }
  return first;
}

std::string Engine::inputsText(State &s, const Model &m) {
  std::string r;
  for (auto &p : opt.params) r += "#param " + p.first + " " + std::to_string(p.second) + "\n";
  if (opt.unlockPoints) r += "#unlockpoints 1\n";
  if (opt.preemptBound != 2) r += "#preempt " + std::to_string(opt.preemptBound) + "\n";
  for (auto &in : s.inputs) {
    std::string nm = in->name;
    for (char &c : nm) if (c == ' ') c = '_';
    r += nm + " " + std::to_string(in->bytes.size()) + " ";
    char b[4];
    for (E e : in->bytes) { snprintf(b, 4, "%02x", (unsigned)evalExpr(e, m)); r += b; }
    r += "\n";
  }
  return r;
}

void Engine::report(State &s, const std::string &kind, const std::string &msg, const Model &m) {
  std::string full;
  std::string w = where(s, &full);
  std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : w);
  if (!violKeys.insert(key).second) return;
  Violation v;
  v.kind = kind; v.msg = msg; v.where = w; v.stack = full;
  v.replayText = inputsText(s, m);
  if (viols.empty()) tViol = now();
  viols.push_back(v);
  fprintf(stderr, "symx: VIOLATION %s: %s at %s\n%s", kind.c_str(), msg.c_str(), w.c_str(), full.c_str());
  if (opt.verbose) fprintf(stderr, "%s", v.replayText.c_str());
}

void Engine::fail(State &s, const std::string &kind, const std::string &msg, const Model *m) {
  report(s, kind, msg, m ? *m : s.model);
  throw PathEnd{2, msg};
}

void Engine::checkLimits() {
  if (now() - t0 > opt.maxTime) throw EngineError{"time limit reached"};
  if (nPaths > opt.maxPaths) throw EngineError{"path limit reached"};
  if (!viols.empty() && now() - tViol > 20) throw PathEnd{9, "enough time after a violation"};
  if ((int)viols.size() >= opt.maxViolations) throw PathEnd{9, "enough violations"};
}

// ---------------------------------------------------------------- exploration
bool Engine::atStop(State &s, int &lvl) {
  if (!s.at || levels.empty()) return false;
  size_t n = s.stack().size();
  for (int i = (int)levels.size() - 1; i >= 0; i--) {
    Level &l = levels[i];
    if (l.th != s.cur) continue;
    if ((s.at == 1 || (s.at == 2 && s.stack().back()->ip == 0)) && !l.isRet && l.depth == n && s.stack().back()->fn == l.fn && s.stack().back()->block == l.block && s.stack().back()->ip == 0) { lvl = i; s.at = 1; return true; }
    if (s.at == 2 && l.isRet && l.depth == n + 1) { lvl = i; return true; }
  }
  return false;
}

Engine::Ev Engine::runState(State &s, ForkSignal &fs, int &hl) {
  try {
    for (;;) {
      if (s.at) {
        if (atStop(s, hl)) return Ev::Hit;
        s.at = 0;
      }
      step(s);
    }
  } catch (ForkSignal &f) {
    fs = std::move(f);
    s.at = 0;
    return Ev::Fork;
  } catch (PathEnd &p) {
    if (p.kind == 9) throw;
    if (p.kind == 0) pathDone(s);
    nPaths++;
    nSteps += s.steps;
    return Ev::End;
  }
}

void Engine::pathDone(State &s) {
  // reservoir of completed paths for validation against the native build
  if (opt.samples <= 0) return;
  rng = rng * 6364136223846793005ull + 1442695040888963407ull;
  size_t idx = sampleFiles.size();
  if ((int)idx >= opt.samples) {
    uint64_t r = (rng >> 33) % (nPaths + 1);
    if (r >= (uint64_t)opt.samples) return;
    idx = r;
  }
  std::string t = inputsText(s, s.model);
  for (auto &o : s.obs) t += std::string("#obs ") + o.first + " " + std::to_string(evalExpr(o.second, s.model)) + "\n";
  if (idx == sampleFiles.size()) sampleFiles.push_back(t); else sampleFiles[idx] = t;
}

void Engine::explore(std::vector<std::unique_ptr<State>> work) {
  while (!work.empty()) {
    auto s = std::move(work.back());
    work.pop_back();
    checkLimits();
    ForkSignal fs{nullptr, false, {}};
    int hl = -1;
    Ev ev = runState(*s, fs, hl);
    if (ev == Ev::End) continue;
    if (ev == Ev::Hit) { levels[hl].hits.push_back(std::move(s)); continue; }
    nForks++;
    auto o = std::make_unique<State>(*s);
    E no = mkNot(fs.cond);
    s->forks++; o->forks++;
    // s keeps its model, o gets the other one
    addPc(*s, fs.cur ? fs.cond : no);
    addPc(*o, fs.cur ? no : fs.cond);
    o->model = std::move(fs.other);
    Frame *f = s->stack().empty() ? nullptr : s->stack().back().get();
    bool tryMerge = !explicitFork && f && s->mergeMode > 0 && !s->mt && f->fn->blocks[f->block].reachesRet && levels.size() < 20000;
    explicitFork = false;
    if (!tryMerge) {
      work.push_back(std::move(o));
      work.push_back(std::move(s));
      continue;
    }
    Level lv;
    lv.th = s->cur; lv.depth = s->stack().size(); lv.block = f->fn->blocks[f->block].ipdom; lv.isRet = lv.block < 0; lv.fn = f->fn; lv.mark = nextAddr;
    if (lv.isRet && lv.depth == 1) { // end of thread: nothing to merge
      work.push_back(std::move(o)); work.push_back(std::move(s)); continue;
    }
    maxDepth = std::max<uint64_t>(maxDepth, levels.size() + 1);
    levels.push_back(std::move(lv));
    std::vector<std::unique_ptr<State>> w2;
    w2.push_back(std::move(o)); w2.push_back(std::move(s));
    explore(std::move(w2));
    Level done = std::move(levels.back());
    levels.pop_back();
    std::vector<std::unique_ptr<State>> res;
    for (auto &h : done.hits) {
      bool ok = false;
      for (auto &r : res) if (mergeInto(*r, *h, done.mark)) { ok = true; nMerges++; break; }
      if (!ok) { if (!res.empty()) nMergeRej++; res.push_back(std::move(h)); }
    }
    for (size_t i = res.size(); i-- > 0;) work.push_back(std::move(res[i]));
  }
}

static bool looksPtr(uint64_t v) { return v >= 0x10000000ull && v < 0x4000000000ull; }

bool Engine::mergeInto(State &a, State &b, uint64_t mark) {
  int mode = std::min(a.mergeMode, b.mergeMode);
  if (mode <= 0 || a.th.size() != b.th.size() || a.cur != b.cur || a.at != b.at || a.mt || b.mt || a.tag != b.tag) return false;
  if (a.obs.size() != b.obs.size() || a.inputs.size() != b.inputs.size() || a.mergeMode != b.mergeMode) return false;
  for (size_t i = 0; i < a.obs.size(); i++) if (strcmp(a.obs[i].first, b.obs[i].first)) return false;
  for (size_t i = 0; i < a.inputs.size(); i++)
    if (a.inputs[i] != b.inputs[i] && (a.inputs[i]->name != b.inputs[i]->name || a.inputs[i]->bytes != b.inputs[i]->bytes)) return false;
  if (a.mtx.size() != b.mtx.size()) return false;
  for (auto i = a.mtx.begin(), j = b.mtx.begin(); i != a.mtx.end(); ++i, ++j)
    if (i->first != j->first || i->second.owner != j->second.owner || i->second.count != j->second.count || i->second.readers != j->second.readers) return false;
  // path conditions
  size_t p = 0;
  while (p < a.pc.size() && p < b.pc.size() && a.pc[p] == b.pc[p]) p++;
  E selA = nullptr;
  E ca = mkTrue(), cb = mkTrue();
  for (size_t i = p; i < a.pc.size(); i++) ca = mkAndB(ca, a.pc[i]);
  for (size_t i = p; i < b.pc.size(); i++) cb = mkAndB(cb, b.pc[i]);
  if (p < a.pc.size() && p < b.pc.size() && a.pc[p] == mkNot(b.pc[p])) selA = a.pc[p];
  else if (p < a.pc.size()) selA = ca;
  else if (p < b.pc.size()) selA = mkNot(cb);
  else return false; // identical path conditions: cannot happen for disjoint paths
  auto badPair = [&](const Val &x, const Val &y) {
    if (mode >= 2) return false;
    bool px = x.e ? (x.e->leaves && x.e->w == 64 && looksPtr(evalExpr(x.e, a.model))) : looksPtr(x.c);
    bool py = y.e ? (y.e->leaves && y.e->w == 64 && looksPtr(evalExpr(y.e, b.model))) : looksPtr(y.c);
    return px || py;
  };
  auto tooWide = [&](const Val &x, const Val &y) {
    uint64_t lx = x.e ? x.e->leaves : 1, ly = y.e ? y.e->leaves : 1;
    return lx && ly && lx + ly > 64;
  };
  struct RegFix { size_t t, f; int r; };
  std::vector<RegFix> rf;
  for (size_t t = 0; t < a.th.size(); t++) {
    Thread &ta = a.th[t], &tb = b.th[t];
    if (ta.st.size() != tb.st.size() || ta.done != tb.done || ta.pend != tb.pend || ta.passed != tb.passed) return false;
    for (size_t i = 0; i < ta.st.size(); i++) {
      Frame *fa = ta.st[i].get(), *fb = tb.st[i].get();
      if (fa == fb) continue;
      if (fa->fn != fb->fn || fa->block != fb->block || fa->ip != fb->ip) return false;
      if (fa->lpPtr != fb->lpPtr || fa->lpSel != fb->lpSel) {
        fa = ta.st[i].w(); fb = tb.st[i].w();
      }
      const std::vector<bool> *lv = nullptr;
      if (i + 1 == ta.st.size() && a.at == 1) {
        if (fa->fn->live.empty()) liveness(fa->fn);
        lv = &fa->fn->live[fa->block];
      }
      // phi results at this block are live if used; liveness computed after phis marks them through uses
      for (size_t r = 0; r < fa->regs.size(); r++) {
        const Val &x = fa->regs[r], &y = fb->regs[r];
        if (x.e == y.e && x.c == y.c) continue;
        if (lv && !(*lv)[r]) continue;
        if (fa->fn->rw[r] == 64 && badPair(x, y)) return false;
        if (tooWide(x, y)) return false;
        rf.push_back({t, i, (int)r});
      }
    }
  }
  // memory
  std::vector<std::pair<size_t, size_t>> diff;
  std::vector<size_t> onlyB;
  size_t i = 0, j = 0, bytes = 0;
  while (i < a.objs.size() || j < b.objs.size()) {
    if (j >= b.objs.size() || (i < a.objs.size() && a.objs[i]->base < b.objs[j]->base)) {
      if (a.objs[i]->base < mark) return false;
      i++; continue;
    }
    if (i >= a.objs.size() || b.objs[j]->base < a.objs[i]->base) {
      if (b.objs[j]->base < mark) return false;
      onlyB.push_back(j); j++; continue;
    }
    Obj *x = a.objs[i].get(), *y = b.objs[j].get();
    if (x != y) {
      if (x->size != y->size) return false;
      bool d = false;
      for (uint64_t q = 0; q < x->size; q++) {
        E ex = x->s.empty() ? nullptr : x->s[q], ey = y->s.empty() ? nullptr : y->s[q];
        if (ex == ey && (ex || x->c[q] == y->c[q])) continue;
        d = true; bytes++;
        if (mode < 2 && (q % 8 == 0 || bytes == 1)) {
          uint64_t q8 = q & ~7ull;
          if (q8 + 8 <= x->size) {
            auto word = [&](Obj *o, const Model &m) {
              uint64_t v = 0;
              for (int z = 7; z >= 0; z--) {
                E e = o->s.empty() ? nullptr : o->s[q8 + z];
                if (e == g_uninit) return (uint64_t)0;
                v = (v << 8) | (e ? evalExpr(e, m) : o->c[q8 + z]);
              }
              return v;
            };
            uint64_t wx = word(x, a.model), wy = word(y, b.model);
            // reject when a pointer would become symbolic
            auto isObj = [&](uint64_t v) { return v >= 0x100000000ull && v < nextAddr; };
            if (wx != wy && (isObj(wx) || isObj(wy) || (looksPtr(wx) && looksPtr(wy)))) return false;
          }
        }
      }
      if (d) diff.push_back({i, j});
    }
    i++; j++;
  }
  if (mode < 2 && bytes > 1024) return false;
  // commit
  for (auto &r : rf) {
    Frame *fa = a.th[r.t].st[r.f].w();
    Frame *fb = b.th[r.t].st[r.f].get();
    unsigned w = fa->fn->rw[r.r];
    Val x = fa->regs[r.r], y = fb->regs[r.r];
    fa->regs[r.r] = Val(mkIte(selA, toE(x, w), toE(y, w)));
  }
  for (auto &d : diff) {
    Obj *x = a.objs[d.first].w();
    Obj *y = b.objs[d.second].get();
    for (uint64_t q = 0; q < x->size; q++) {
      E ex = x->s.empty() ? nullptr : x->s[q], ey = y->s.empty() ? nullptr : y->s[q];
      if (ex == ey && (ex || x->c[q] == y->c[q])) continue;
      if (ex == g_uninit) ex = mkVar("uninit", 8, true);
      if (ey == g_uninit) ey = mkVar("uninit", 8, true);
      if (!ex) ex = mkConst(x->c[q], 8);
      if (!ey) ey = mkConst(y->c[q], 8);
      x->setE(q, mkIte(selA, ex, ey));
    }
  }
  if (!onlyB.empty()) {
    for (size_t q : onlyB) a.objs.push_back(b.objs[q]);
    std::sort(a.objs.begin(), a.objs.end(), [](const Ref<Obj> &x, const Ref<Obj> &y) { return x->base < y->base; });
  }
  // stack objects of frames: keep union of allocas
  for (size_t t = 0; t < a.th.size(); t++)
    for (size_t q = 0; q < a.th[t].st.size(); q++) {
      Frame *fa = a.th[t].st[q].get(), *fb = b.th[t].st[q].get();
      if (fa == fb || fa->allocas == fb->allocas) continue;
      Frame *w = a.th[t].st[q].w();
      for (uint64_t x : fb->allocas) if (std::find(w->allocas.begin(), w->allocas.end(), x) == w->allocas.end()) w->allocas.push_back(x);
    }
  for (size_t q = 0; q < a.obs.size(); q++)
    if (a.obs[q].second != b.obs[q].second) a.obs[q].second = mkIte(selA, a.obs[q].second, b.obs[q].second);
  std::vector<E> pc(a.pc.begin(), a.pc.begin() + p);
  E m = mkOrB(ca, cb);
  if (p < a.pc.size() && p < b.pc.size() && a.pc[p] == mkNot(b.pc[p])) {
    E ra = mkTrue(), rb = mkTrue();
    for (size_t q = p + 1; q < a.pc.size(); q++) ra = mkAndB(ra, a.pc[q]);
    for (size_t q = p + 1; q < b.pc.size(); q++) rb = mkAndB(rb, b.pc[q]);
    m = mkIte(selA, ra, rb);
  }
  a.pc = pc;
  addPc(a, m);
  a.steps = std::max(a.steps, b.steps);
  a.clock = std::max(a.clock, b.clock);
  return true;
}

// ---------------------------------------------------------------- run
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

int Engine::run() {
  t0 = now();
  std::string status = "ok", err;
  try {
    auto s = std::make_unique<State>();
    s->mergeMode = opt.mergeMode;
    initGlobals(*s);
    for (const char *n : {"pthread_mutex_trylock", "pthread_rwlock_trywrlock", "pthread_rwlock_tryrdlock"}) {
      Function *tf = M->getFunction(n);
      if (tf && !tf->use_empty()) opt.unlockPoints = true;
    }
    Function *entry = M->getFunction(opt.entry);
    if (!entry || entry->isDeclaration()) throw EngineError{"no entry " + opt.entry};
    // global constructors then entry, through a synthetic driver
    std::vector<std::pair<uint64_t, Function *>> ctors;
    if (GlobalVariable *gc = M->getGlobalVariable("llvm.global_ctors"))
      if (gc->hasInitializer())
        if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
          for (auto &o : ca->operands()) {
            auto *cs = cast<ConstantStruct>(o.get());
            if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
              ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
          }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &x, auto &y) { return x.first < y.first; });
    LLVMContext &C = M->getContext();
    Function *drv = Function::Create(FunctionType::get(Type::getVoidTy(C), false), GlobalValue::ExternalLinkage, "symx_driver", M.get());
    BasicBlock *bb = BasicBlock::Create(C, "", drv);
    for (auto &c : ctors) CallInst::Create(c.second->getFunctionType(), c.second, "", bb);
    CallInst::Create(entry->getFunctionType(), entry, "", bb);
    ReturnInst::Create(C, bb);
    s->th.resize(1);
    pushFrame(*s, drv, {}, nullptr);
    std::vector<std::unique_ptr<State>> w;
    w.push_back(std::move(s));
    explore(std::move(w));
  } catch (EngineError &e) {
    status = "error"; err = e.msg;
  } catch (PathEnd &p) {
    if (p.kind != 9) { status = "error"; err = p.msg; }
    else status = "stopped";
  }
  if (status == "ok" && !incomplete.empty()) { status = "error"; err = incomplete; }
  double wall = now() - t0;
  // report
  std::vector<std::string> missing;
  for (auto &c : coverDecl) if (!coverCount.count(c)) missing.push_back(c);
  std::ofstream os(opt.outDir + "/" + opt.entry + ".json");
  os << "{\n \"entry\": " << jstr(opt.entry) << ",\n \"status\": " << jstr(status) << ",\n \"error\": " << jstr(err) << ",\n";
  os << " \"wall_s\": " << wall << ",\n \"paths\": " << nPaths << ", \"forks\": " << nForks << ", \"merges\": " << nMerges << ", \"merge_rejected\": " << nMergeRej
     << ", \"steps\": " << nSteps << ", \"asserts\": " << nAsserts << ", \"assert_queries\": " << nAssertQ << ", \"assume_pruned\": " << nAssume << ", \"max_merge_depth\": " << maxDepth << ",\n";
  os << " \"solver\": {\"queries\": " << g_ss.queries << ", \"sat\": " << g_ss.sat << ", \"unsat\": " << g_ss.unsat << ", \"unknown\": " << g_ss.unknown
     << ", \"cache_hits\": " << g_ss.cacheHits << ", \"model_hits\": " << g_ss.modelHits << ", \"seconds\": " << g_ss.seconds << ", \"max_seconds\": " << g_ss.maxSeconds << "},\n";
  os << " \"exprs\": " << g_numExprs << ", \"vars\": " << g_vars.size() << ",\n";
  os << " \"covers\": {";
  bool first = true;
  for (auto &c : coverCount) { os << (first ? "" : ", ") << jstr(c.first) << ": " << c.second; first = false; }
  os << "},\n \"missing_covers\": [";
  for (size_t i = 0; i < missing.size(); i++) os << (i ? ", " : "") << jstr(missing[i]);
  os << "],\n \"functions\": [";
  first = true;
  std::map<std::string, std::pair<std::set<unsigned>, std::set<unsigned>>> lines;
  for (auto &p : kfuncs) {
    KFunc *k = p.second;
    if (k->calls && k->inRepo) { os << (first ? "" : ", ") << jstr(k->dem); first = false; }
    for (auto &b : k->blocks) for (auto &i : b.ins) {
      const DebugLoc &dl = i.I->getDebugLoc();
      if (!dl) continue;
      std::string fn = dl->getFilename().str();
      if (!fn.empty() && fn[0] != '/') fn = dl->getDirectory().str() + "/" + fn;
      if (fn.compare(0, opt.repoPrefix.size(), opt.repoPrefix)) continue;
      if (dl.getLine() == 0) continue;
      auto &l = lines[fn.substr(opt.repoPrefix.size())];
      l.second.insert(dl.getLine());
      if (i.visited) l.first.insert(dl.getLine());
    }
  }
  os << "],\n \"lines\": {";
  first = true;
  for (auto &l : lines) { os << (first ? "" : ", ") << jstr(l.first) << ": [" << l.second.first.size() << ", " << l.second.second.size() << "]"; first = false; }
  os << "},\n \"violations\": [";
  for (size_t i = 0; i < viols.size(); i++) {
    auto &v = viols[i];
    std::string rp = opt.outDir + "/" + opt.entry + ".viol" + std::to_string(i) + ".inp";
    std::ofstream(rp) << v.replayText;
    os << (i ? ",\n  " : "\n  ") << "{\"kind\": " << jstr(v.kind) << ", \"msg\": " << jstr(v.msg) << ", \"where\": " << jstr(v.where) << ", \"stack\": " << jstr(v.stack) << ", \"replay\": " << jstr(rp) << "}";
  }
  os << "],\n \"samples\": [";
  for (size_t i = 0; i < sampleFiles.size(); i++) {
    std::string rp = opt.outDir + "/" + opt.entry + ".path" + std::to_string(i) + ".inp";
    std::ofstream(rp) << sampleFiles[i];
    os << (i ? ", " : "") << jstr(rp);
  }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  os << "],\n \"max_rss_mb\": " << ru.ru_maxrss / 1024 << "\n}\n";
  os.close();
  fprintf(stderr, "symx: %s: %s%s%s paths=%lu forks=%lu merges=%lu/%lu steps=%lu queries=%lu solver=%.2fs wall=%.2fs viol=%zu missing=%zu\n", opt.entry.c_str(), status.c_str(),
          err.empty() ? "" : ": ", err.c_str(), nPaths, nForks, nMerges, nMergeRej, nSteps, g_ss.queries, g_ss.seconds, wall, viols.size(), missing.size());
  return status == "error" ? 3 : viols.empty() ? 0 : 1;
}

} // namespace sx
