#pragma once
#include "solver.h"
#include "state.h"
#include <functional>
#include <llvm/ADT/APInt.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <unordered_map>

namespace sx {

struct Comp { uint32_t off; uint16_t w; bool fp; };

struct KInst {
  unsigned opc = 0;
  llvm::Instruction *I = nullptr;
  int dst = -1, nd = 0;
  uint8_t w = 0, w2 = 0; // widths: result/operand, other
  int pred = 0;
  int a = 0, b = 0, c = 0;
  std::vector<int> xs;   // call args / gep indices / switch / aggregate
  std::vector<uint64_t> ys;
  int64_t off = 0;
  const std::vector<Comp> *comps = nullptr;
  llvm::Function *callee = nullptr;
  int t0 = -1, t1 = -1;  // target blocks
  bool visited = false;
  bool fp = false;
};
struct KPhi { int dst, n, src; };
struct KBlock {
  std::vector<KInst> ins;
  std::unordered_map<int, std::vector<KPhi>> phis; // by predecessor block
  int ipdom = -1;   // -1: function return (or none)
  bool reachesRet = false;
};
struct KFunc {
  llvm::Function *f;
  std::string name;     // mangled
  std::string dem;      // demangled, short
  std::string file;     // defining source file
  bool inRepo = false;
  std::vector<KBlock> blocks;
  int nregs = 0;
  std::vector<std::pair<int, int>> args; // slot, ncomp
  uint64_t calls = 0;
  std::vector<uint8_t> rw;          // width of each register slot
  std::vector<std::vector<bool>> live; // live-in registers per block (lazy)
};

struct ForkSignal { E cond; bool cur; Model other; };
struct PathEnd { int kind; std::string msg; }; // 0 done, 1 assume false, 2 violation (already reported), 3 exit
struct EngineError { std::string msg; };

struct Violation { std::string kind, msg, where, stack; std::string replayText; };

struct Options {
  std::string entry, outDir, repoPrefix = "/repo/";
  std::map<std::string, long> params;
  double maxTime = 300;
  bool unlockPoints = false; // releasing a lock matters only to threads that try
  uint64_t maxSteps = 20000000, maxPaths = 2000000;
  unsigned solverTimeout = 60000;
  int preemptBound = 2;
  int samples = 5;
  int maxViolations = 6;
  int mergeMode = 1;
  bool checkUninit = true;
  uint64_t seed = 1;
  bool verbose = false;
};

class Engine {
public:
  Engine(std::unique_ptr<llvm::Module> m, Options o);
  int run();

private:
  friend struct Natives;
  Options opt;
  std::unique_ptr<llvm::Module> M;
  const llvm::DataLayout &DL;
  Solver solver;

  // program
  std::unordered_map<llvm::Function *, KFunc *> kfuncs;
  std::unordered_map<llvm::Type *, std::vector<Comp>> compCache;
  std::vector<Val> consts;
  std::unordered_map<const llvm::Constant *, int> constIdx;
  std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr;
  std::unordered_map<uint64_t, llvm::Function *> faddr;
  std::vector<Ref<Obj>> gobjs; // read-only globals, sorted
  std::unordered_map<uint64_t, const llvm::GlobalVariable *> gvByAddr;
  std::unordered_map<uint64_t, int> typeIds;
  uint64_t nextAddr = 0x100000000ull;
  uint64_t nextGlobal = 0x20000000ull;

  const std::vector<Comp> &comps(llvm::Type *T);
  int constOp(llvm::Constant *C);
  void flattenConst(llvm::Constant *C, std::vector<Val> &out);
  uint64_t constAddr(llvm::Constant *C);
  void initGlobals(State &s);
  void writeConst(Obj *o, uint64_t off, llvm::Constant *C);
  KFunc *kf(llvm::Function *f);
  void computeIpdom(KFunc *k);

  // exploration
  struct Level { int th; size_t depth; int block; bool isRet; KFunc *fn; uint64_t mark; std::vector<std::unique_ptr<State>> hits; };
  std::vector<Level> levels;
  void explore(std::vector<std::unique_ptr<State>> work);
  enum class Ev { Fork, End, Hit };
  Ev runState(State &s, ForkSignal &fs, int &hitLevel);
  bool atStop(State &s, int &lvl);
  bool mergeInto(State &a, State &b, uint64_t mark);
  void liveness(KFunc *k);

  void step(State &s);
  void exec(State &s, Frame *f, KInst &k);
  void jump(State &s, Frame *f, int to);
  void doCall(State &s, Frame *f, KInst &k);
  bool intrinsic(State &s, Frame *f, KInst &k, std::vector<Val> &args);
  void pushFrame(State &s, llvm::Function *fn, const std::vector<Val> &args, KInst *site);
  void doReturn(State &s, const std::vector<Val> &rv);
  void finishCall(State &s, Frame *f, KInst &k); // advance past a call/invoke
  void unwind(State &s, uint64_t obj, bool popTop);
  bool landing(State &s, Frame *f, KInst &lp, uint64_t obj);
  void threadDone(State &s);

  const Val &get(Frame *f, int op, int k = 0) { return op >= 0 ? f->regs[op + k] : consts[-op - 1 + k]; }
  Val binop(State &s, unsigned opc, const Val &a, const Val &b, unsigned w);
  Val icmp(int pred, const Val &a, const Val &b, unsigned w);
  Val fpop(KInst &k, const Val &a, const Val &b);

  // decisions
  bool decide(State &s, E c);
  bool decideV(State &s, const Val &v) { return v.e ? decide(s, v.e) : (v.c & 1); }
  bool dependsOnUninit(State &s, E c);
  bool mayBe(State &s, E c, Model *m);
  bool explicitFork = false;
  uint64_t concretize(State &s, const Val &v, unsigned w);
  void addPc(State &s, E c);

  // memory
  struct Access { uint64_t addr; E guard; };
  Ref<Obj> *findObj(State &s, uint64_t addr);
  Obj *wobj(State &s, uint64_t addr);
  uint64_t alloc(State &s, uint64_t n, OK kind, bool uninit, const char *what, uint64_t align = 16);
  void freeObj(State &s, uint64_t addr, int how);
  void removeObj(State &s, uint64_t addr);
  std::vector<Access> resolve(State &s, const Val &p, uint64_t n, bool wr, const char *what);
  void checkAcc(State &s, uint64_t a, uint64_t n, bool wr, const char *what, Ref<Obj> **out);
  Val loadC(State &s, uint64_t addr, unsigned w, Ref<Obj> *o = nullptr);
  void storeC(State &s, uint64_t addr, const Val &v, unsigned w, Ref<Obj> *o = nullptr);
  Val load(State &s, const Val &p, unsigned w, const char *what = "load");
  void store(State &s, const Val &p, const Val &v, unsigned w, const char *what = "store");
  E byteAt(State &s, uint64_t addr);
  void memcpyC(State &s, const Val &d, const Val &src, uint64_t n, bool isMove);
  void memsetC(State &s, const Val &d, const Val &v, uint64_t n);
  std::string readStr(State &s, uint64_t addr);

  // exceptions
  bool canCatch(State &s, uint64_t thrown, uint64_t want, uint64_t obj, uint64_t &adj);
  void findBases(State &s, uint64_t ti, uint64_t want, uint64_t obj, uint64_t addr, std::vector<uint64_t> &out);
  bool sameType(State &s, uint64_t a, uint64_t b);
  uint64_t dynCast(State &s, uint64_t p, uint64_t src, uint64_t dst);
  uint64_t siVt = 0, vmiVt = 0, ptrVt = 0;

  // threads
  bool syncPoint(State &s, Pend p, uint64_t addr);
  bool enabled(State &s, int t);
  void schedule(State &s);
  void race(State &s, uint64_t a, uint64_t n, bool wr);
  void accessMt(State &s, uint64_t a, uint64_t n, bool wr);

  // reporting
  [[noreturn]] void fail(State &s, const std::string &kind, const std::string &msg, const Model *m = nullptr);
  void report(State &s, const std::string &kind, const std::string &msg, const Model &m);
  std::string where(State &s, std::string *full);
  std::string inputsText(State &s, const Model &m);
  void pathDone(State &s);
  void checkLimits();
  std::string cstrArg(State &s, const Val &v);
  void makeSymbolic(State &s, const Val &p, uint64_t n, const std::string &name);

  std::vector<Violation> viols;
  double tViol = 0; // when the first violation was found
  std::set<std::string> violKeys;
  std::map<std::string, uint64_t> coverCount;
  std::set<std::string> coverDecl;
  std::vector<std::string> sampleFiles;
  uint64_t nPaths = 0, nForks = 0, nMerges = 0, nMergeRej = 0, nSteps = 0, nAssume = 0, nAsserts = 0, nAssertQ = 0, maxDepth = 0;
  double t0 = 0;
  std::string incomplete;
  std::unordered_map<std::string, const char *> strPool;
  const char *pool(const std::string &s);
  std::unordered_map<std::string, std::function<bool(State &, Frame *, KInst &, std::vector<Val> &)>> nat;
  void initNatives();
  uint64_t rng;
  void setRet(Frame *f, KInst &k, const Val &v) { if (k.dst >= 0) f->regs[k.dst] = v; }
};

} // namespace sx
