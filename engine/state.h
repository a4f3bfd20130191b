// Program state of the symbolic executor.
#pragma once
#include "expr.h"
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace llvm { class Function; class Instruction; class BasicBlock; class Type; }

namespace sx {

// A scalar value: concrete (e == nullptr) or symbolic.
struct Val {
  E e = nullptr;
  uint64_t c = 0;
  Val() {}
  Val(uint64_t x) : c(x) {}
  explicit Val(E x) { if (x->isConst()) c = x->v; else e = x; }
  bool sym() const { return e != nullptr; }
};
inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

template <class T> class Ref {
  T *p = nullptr;
public:
  Ref() {}
  Ref(T *x) : p(x) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  Ref &operator=(const Ref &o) { Ref t(o); std::swap(p, t.p); return *this; }
  Ref &operator=(Ref &&o) noexcept { std::swap(p, o.p); return *this; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  T *get() const { return p; }
  explicit operator bool() const { return p; }
  // make unique for writing
  T *w() { if (p->rc > 1) { T *n = new T(*p); n->rc = 1; p->rc--; p = n; } return p; }
};

extern E g_uninit; // sentinel for uninitialised bytes

enum class OK : uint8_t { Global, Stack, Heap };

struct Obj {
  uint32_t rc = 0;
  uint64_t base, size;
  bool ro = false;
  OK kind;
  uint8_t how = 0; // heap: 1 malloc, 2 new, 3 new[]
  const char *what = "";
  std::vector<uint8_t> c;
  std::vector<E> s; // empty: fully concrete
  Obj(uint64_t b, uint64_t n, OK k, bool uninit) : base(b), size(n), kind(k), c(n, 0) { if (uninit) s.assign(n, g_uninit); }
  Obj(const Obj &o) : base(o.base), size(o.size), ro(o.ro), kind(o.kind), how(o.how), what(o.what), c(o.c), s(o.s) {}
  void setC(uint64_t off, uint8_t b) { c[off] = b; if (!s.empty()) s[off] = nullptr; }
  void setE(uint64_t off, E e) {
    if (e->isConst()) { setC(off, (uint8_t)e->v); return; }
    if (s.empty()) s.assign(size, nullptr);
    s[off] = e;
  }
};

struct KFunc;
struct KBlock;

struct Frame {
  uint32_t rc = 0;
  KFunc *fn = nullptr;
  int block = 0;
  int ip = 0;          // index into block's instructions
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  uint64_t lpPtr = 0;  // pending exception for landing pad
  int lpSel = 0;
  Frame() {}
  Frame(const Frame &o) : fn(o.fn), block(o.block), ip(o.ip), regs(o.regs), allocas(o.allocas), lpPtr(o.lpPtr), lpSel(o.lpSel) {}
};

constexpr int MAXT = 4;
struct VC { uint32_t v[MAXT] = {0, 0, 0, 0}; void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.v[i] > v[i]) v[i] = o.v[i]; } };

enum class Pend : uint8_t { None, Start, Lock, RdLock, TryLock, Unlock, Join, Yield };
struct Thread {
  std::vector<Ref<Frame>> st;
  bool done = false;
  bool passed = false;
  Pend pend = Pend::None;
  uint64_t addr = 0;
  VC vc;
};

struct MutexInfo { int owner = -1; int count = 0; std::set<int> readers; VC vc; };
struct AccInfo { int wt = -1; uint32_t wc = 0; uint32_t rc_[MAXT] = {0, 0, 0, 0}; };

struct Input { std::string name; std::vector<E> bytes; };

struct State {
  std::vector<Thread> th;
  int cur = 0;
  std::vector<Ref<Obj>> objs; // sorted by base
  std::vector<E> pc;
  Model model;
  std::vector<std::shared_ptr<Input>> inputs;
  std::vector<std::pair<const char *, E>> obs;
  std::map<uint64_t, MutexInfo> mtx;
  std::shared_ptr<std::map<uint64_t, AccInfo>> acc;
  int preempt = 0;
  E pendSched = nullptr;
  bool mt = false; // more than one thread alive
  uint64_t steps = 0;
  uint32_t forks = 0;
  uint64_t clock = 1000000000;
  uint8_t at = 0;        // 1: at block start, 2: just returned from a call
  int mergeMode = 1;
  uint64_t tag = 0;      // values chosen by symx_concretize: executions that differ in them are not merged

  std::vector<Ref<Frame>> &stack() { return th[cur].st; }
  Frame *top() { return th[cur].st.back().w(); }
};

} // namespace sx
