// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <z3.h>

namespace sx {

enum class Op : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Not, Ite, ZExt, SExt, Extract, Concat
};

using VarSet = std::vector<uint32_t>;

struct Expr {
  Op op;
  uint8_t w;
  uint32_t id;
  uint32_t leaves;      // >0: ite tree with that many constant leaves (a constant has 1)
  uint64_t v;           // constant value / variable index / extract low bit
  const Expr *a, *b, *c;
  mutable Z3_ast z = nullptr;
  mutable const VarSet *vs = nullptr;
  mutable uint64_t ev = 0;
  mutable uint32_t eg = 0;
  bool isConst() const { return op == Op::Const; }
};
using E = const Expr *;

struct VarInfo { std::string name; uint8_t w; bool internal; };
extern std::vector<VarInfo> g_vars;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string &name, unsigned w, bool internal = false);
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
inline E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkAndB(E a, E b) { return mkBin(Op::And, a, b); }
inline E mkOrB(E a, E b) { return mkBin(Op::Or, a, b); }

uint64_t foldBin(Op op, uint64_t x, uint64_t y, unsigned w);

using Model = std::vector<uint64_t>; // by variable index, missing = 0
uint64_t evalExpr(E e, const Model &m);
const VarSet &varsOf(E e);
// copy of e with every internal variable replaced by its twin
E renameInternal(E e);
std::string exprStr(E e, int depth = 6);
extern uint64_t g_numExprs;

} // namespace sx
