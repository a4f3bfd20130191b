#include "expr.h"
#include <algorithm>
#include <cassert>
#include <deque>
#include <unordered_set>
#include <unordered_map>

namespace sx {

std::vector<VarInfo> g_vars;
uint64_t g_numExprs = 0;

namespace {
struct Hash {
  size_t operator()(E e) const {
    size_t h = (size_t)e->op * 0x9E3779B97F4A7C15ull + e->w;
    h = (h ^ e->v) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ (e->a ? e->a->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
    h = (h ^ (e->b ? e->b->id + 1 : 0)) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
    h = (h ^ (e->c ? e->c->id + 1 : 0)) * 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
  }
};
struct EqE {
  bool operator()(E x, E y) const {
    return x->op == y->op && x->w == y->w && x->v == y->v && x->a == y->a && x->b == y->b && x->c == y->c;
  }
};
std::unordered_set<E, Hash, EqE> &table() { static std::unordered_set<E, Hash, EqE> t(1 << 20); return t; }
std::deque<Expr> &arena() { static std::deque<Expr> a; return a; }

E intern(Op op, unsigned w, uint64_t v, E a, E b, E c) {
  assert(w >= 1 && w <= 64);
  Expr tmp; tmp.op = op; tmp.w = (uint8_t)w; tmp.v = v; tmp.a = a; tmp.b = b; tmp.c = c;
  auto it = table().find(&tmp);
  if (it != table().end()) return *it;
  tmp.id = (uint32_t)++g_numExprs;
  tmp.leaves = 0;
  if (op == Op::Const) tmp.leaves = 1;
  else if (op == Op::Ite && b->leaves && c->leaves) {
    uint64_t n = (uint64_t)b->leaves + c->leaves;
    tmp.leaves = n > 4096 ? 0 : (uint32_t)n;
  }
  arena().push_back(tmp);
  E e = &arena().back();
  table().insert(e);
  return e;
}
const uint32_t PUSH_LEAVES = 24;
} // namespace

E mkConst(uint64_t v, unsigned w) {
  v &= maskw(w);
  static E small[65][258];
  if (v < 258) {
    E &s = small[w][v];
    if (!s) s = intern(Op::Const, w, v, nullptr, nullptr, nullptr);
    return s;
  }
  return intern(Op::Const, w, v, nullptr, nullptr, nullptr);
}
E mkVar(const std::string &name, unsigned w, bool internal) {
  g_vars.push_back({name, (uint8_t)w, internal});
  return intern(Op::Var, w, g_vars.size() - 1, nullptr, nullptr, nullptr);
}

uint64_t foldBin(Op op, uint64_t x, uint64_t y, unsigned w) {
  uint64_t m = maskw(w);
  switch (op) {
  case Op::Add: return (x + y) & m;
  case Op::Sub: return (x - y) & m;
  case Op::Mul: return (x * y) & m;
  case Op::UDiv: return y ? (x / y) : m;
  case Op::URem: return y ? (x % y) : x;
  case Op::SDiv: {
    int64_t a = sext64(x, w), b = sext64(y, w);
    if (b == 0) return a < 0 ? 1 : m;
    if (b == -1) return (0 - x) & m;
    return (uint64_t)(a / b) & m;
  }
  case Op::SRem: {
    int64_t a = sext64(x, w), b = sext64(y, w);
    if (b == 0) return x;
    if (b == -1) return 0;
    return (uint64_t)(a % b) & m;
  }
  case Op::And: return x & y;
  case Op::Or: return x | y;
  case Op::Xor: return x ^ y;
  case Op::Shl: return y >= w ? 0 : (x << y) & m;
  case Op::LShr: return y >= w ? 0 : (x >> y);
  case Op::AShr: { int64_t a = sext64(x, w); return (uint64_t)(a >> (y >= w ? (w == 64 ? 63 : w - 1) : y)) & m; }
  case Op::Eq: return x == y;
  case Op::Ult: return x < y;
  case Op::Ule: return x <= y;
  case Op::Slt: return sext64(x, w) < sext64(y, w);
  case Op::Sle: return sext64(x, w) <= sext64(y, w);
  default: assert(0); return 0;
  }
}

static bool isCmp(Op op) { return op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle; }
static bool isComm(Op op) { return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq; }

// ---- bit fields: expressions seen as a sequence of pieces
static void pieces(E e, unsigned base, uint64_t &cuts) { // bit i of cuts: a piece starts at bit i
  cuts |= 1ull << base;
  switch (e->op) {
  case Op::Concat: pieces(e->b, base, cuts); pieces(e->a, base + e->b->w, cuts); break;
  case Op::ZExt: pieces(e->a, base, cuts); cuts |= 1ull << (base + e->a->w); break;
  case Op::Ite:
    if (e->b->isConst() && e->c->isConst()) {
      uint64_t d = e->b->v ^ e->c->v;
      unsigned lo = (unsigned)__builtin_ctzll(d), hi = 64 - (unsigned)__builtin_clzll(d);
      cuts |= 1ull << (base + lo);
      if (base + hi < 64) cuts |= 1ull << (base + hi);
    }
    break;
  case Op::Const: {
    // one cut per run of equal bits
    for (unsigned i = 1; i < e->w; i++) if (((e->v >> i) ^ (e->v >> (i - 1))) & 1) cuts |= 1ull << (base + i);
    break;
  }
  default: break;
  }
}
// op is And, Or or Xor: piecewise result when in every piece one side is constant (all zeros or all ones)
static E fieldwise(Op op, E a, E b) {
  unsigned w = a->w;
  uint64_t cuts = 0;
  pieces(a, 0, cuts); pieces(b, 0, cuts);
  if ((cuts & maskw(w)) == 1) return nullptr;
  std::vector<E> out;
  for (unsigned lo = 0; lo < w;) {
    uint64_t rest = lo + 1 >= 64 ? 0 : cuts >> (lo + 1);
    unsigned hi = rest ? lo + 1 + (unsigned)__builtin_ctzll(rest) : w;
    if (hi > w) hi = w;
    E x = mkExtract(a, lo, hi - lo), y = mkExtract(b, lo, hi - lo);
    if (!x->isConst() && !y->isConst() && x != y) return nullptr;
    out.push_back(mkBin(op, x, y));
    lo = hi;
  }
  E r = out[0];
  for (size_t i = 1; i < out.size(); i++) r = mkConcat(out[i], r);
  return r;
}
static bool fieldLike(E e) { return e->op == Op::Concat || e->op == Op::ZExt || (e->op == Op::Ite && e->b->isConst() && e->c->isConst()); }

E mkNot(E a) {
  if (a->isConst()) return mkConst(~a->v, a->w);
  if (a->op == Op::Not) return a->a;
  if (a->w == 1) {
    if (a->op == Op::Ult) return mkBin(Op::Ule, a->b, a->a);
    if (a->op == Op::Ule) return mkBin(Op::Ult, a->b, a->a);
    if (a->op == Op::Slt) return mkBin(Op::Sle, a->b, a->a);
    if (a->op == Op::Sle) return mkBin(Op::Slt, a->b, a->a);
  }
  if (a->op == Op::Ite && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
  return intern(Op::Not, a->w, 0, a, nullptr, nullptr);
}

E mkBin(Op op, E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w, rw = isCmp(op) ? 1 : w;
  if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->v, b->v, w), rw);
  if (isComm(op) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  // distribute over small ite trees with constant leaves
  if (b->isConst() && a->op == Op::Ite && a->leaves && a->leaves <= PUSH_LEAVES)
    return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  if (a->isConst() && b->op == Op::Ite && b->leaves && b->leaves <= PUSH_LEAVES)
    return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  uint64_t m = maskw(w);
  switch (op) {
  case Op::Add:
    if (b->isConst()) {
      if (b->v == 0) return a;
      if (a->op == Op::Add && a->b->isConst()) return mkBin(Op::Add, a->a, mkConst(a->b->v + b->v, w));
    } else if (a->op == Op::Add && a->b->isConst())
      return mkBin(Op::Add, mkBin(Op::Add, a->a, b), a->b);
    else if (b->op == Op::Add && b->b->isConst())
      return mkBin(Op::Add, mkBin(Op::Add, a, b->a), b->b);
    break;
  case Op::Sub:
    if (a == b) return mkConst(0, w);
    if (b->isConst()) return mkBin(Op::Add, a, mkConst(0 - b->v, w));
    if (a->op == Op::Add && a->a == b) return a->b;
    if (a->op == Op::Add && a->b == b) return a->a;
    if (a->op == Op::Add && a->b->isConst() && b->op == Op::Add && b->b->isConst())
      return mkBin(Op::Add, mkBin(Op::Sub, a->a, b->a), mkConst(a->b->v - b->b->v, w));
    break;
  case Op::Mul:
    if (b->isConst()) {
      if (b->v == 0) return b;
      if (b->v == 1) return a;
      if ((b->v & (b->v - 1)) == 0) return mkBin(Op::Shl, a, mkConst(__builtin_ctzll(b->v), w));
    }
    break;
  case Op::UDiv:
    if (b->isConst() && b->v && (b->v & (b->v - 1)) == 0) return mkBin(Op::LShr, a, mkConst(__builtin_ctzll(b->v), w));
    break;
  case Op::URem:
    if (b->isConst() && b->v && (b->v & (b->v - 1)) == 0) return mkBin(Op::And, a, mkConst(b->v - 1, w));
    break;
  case Op::And:
    if (a == b) return a;
    if (b->isConst()) {
      if (b->v == 0) return b;
      if (b->v == m) return a;
      // low mask
      if ((b->v & (b->v + 1)) == 0) {
        unsigned k = __builtin_ctzll(~b->v);
        return mkZExt(mkExtract(a, 0, k), w);
      }
      if (a->op == Op::And && a->b->isConst()) return mkBin(Op::And, a->a, mkConst(a->b->v & b->v, w));
      if (a->op == Op::ZExt) {
        uint64_t bm = b->v & maskw(a->a->w);
        return mkZExt(mkBin(Op::And, a->a, mkConst(bm, a->a->w)), w);
      }
      // a single run of ones
      unsigned lo = (unsigned)__builtin_ctzll(b->v);
      uint64_t run = b->v >> lo;
      if ((run & (run + 1)) == 0) {
        unsigned k = (unsigned)__builtin_ctzll(~run);
        return mkZExt(mkConcat(mkExtract(a, lo, k), mkConst(0, lo)), w);
      }
    }
    if (w == 1) { if ((a->op == Op::Not && a->a == b) || (b->op == Op::Not && b->a == a)) return mkFalse(); }
    else if (b->isConst() || fieldLike(a) || fieldLike(b)) { if (E r = fieldwise(op, a, b)) return r; }
    break;
  case Op::Or:
    if (a == b) return a;
    if (b->isConst()) { if (b->v == 0) return a; if (b->v == m) return b; }
    if (w == 1) { if ((a->op == Op::Not && a->a == b) || (b->op == Op::Not && b->a == a)) return mkTrue(); }
    if (w > 1 && (b->isConst() || fieldLike(a) || fieldLike(b))) { if (E r = fieldwise(op, a, b)) return r; }
    break;
  case Op::Xor:
    if (a == b) return mkConst(0, w);
    if (b->isConst()) { if (b->v == 0) return a; if (b->v == m) return mkNot(a); }
    if (a->op == Op::Not && b->op == Op::Not) return mkBin(Op::Xor, a->a, b->a);
    if (a->op == Op::Not) return mkNot(mkBin(Op::Xor, a->a, b));
    if (b->op == Op::Not) return mkNot(mkBin(Op::Xor, a, b->a));
    if (w > 1 && !b->isConst() && (fieldLike(a) || fieldLike(b))) { if (E r = fieldwise(op, a, b)) return r; }
    break;
  case Op::Shl:
    if (b->isConst()) {
      if (b->v == 0) return a;
      if (b->v >= w) return mkConst(0, w);
      return mkConcat(mkExtract(a, 0, w - (unsigned)b->v), mkConst(0, (unsigned)b->v));
    }
    break;
  case Op::LShr:
    if (b->isConst()) {
      if (b->v == 0) return a;
      if (b->v >= w) return mkConst(0, w);
      return mkZExt(mkExtract(a, (unsigned)b->v, w - (unsigned)b->v), w);
    }
    break;
  case Op::AShr:
    if (b->isConst()) {
      if (b->v == 0) return a;
      if (b->v < w) return mkSExt(mkExtract(a, (unsigned)b->v, w - (unsigned)b->v), w);
    }
    break;
  case Op::Eq:
    if (a == b) return mkTrue();
    if (w == 1) {
      if (b->isConst()) return b->v ? a : mkNot(a);
      if (a->op == Op::Not && a->a == b) return mkFalse();
      if (b->op == Op::Not && b->a == a) return mkFalse();
    }
    if (a->op == Op::Not && b->op == Op::Not) return mkEq(a->a, b->a);
    if (b->isConst()) {
      if (a->op == Op::ZExt) {
        if (b->v >> a->a->w) return mkFalse();
        return mkEq(a->a, mkConst(b->v, a->a->w));
      }
      if (a->op == Op::SExt) {
        uint64_t t = b->v & maskw(a->a->w);
        if (((uint64_t)sext64(t, a->a->w) & m) != b->v) return mkFalse();
        return mkEq(a->a, mkConst(t, a->a->w));
      }
      if (a->op == Op::Add && a->b->isConst()) return mkEq(a->a, mkConst(b->v - a->b->v, w));
      if (a->op == Op::Not) return mkEq(a->a, mkConst(~b->v, w));
      if (a->op == Op::Concat) {
        unsigned lw = a->b->w;
        return mkAndB(mkEq(a->a, mkConst(b->v >> lw, a->a->w)), mkEq(a->b, mkConst(b->v, lw)));
      }
      if (a->op == Op::Ite) {
        if (a->b->isConst()) {
          if (a->b->v == b->v) return mkOrB(a->a, mkEq(a->c, b));
          return mkAndB(mkNot(a->a), mkEq(a->c, b));
        }
        if (a->c->isConst()) {
          if (a->c->v == b->v) return mkOrB(mkNot(a->a), mkEq(a->b, b));
          return mkAndB(a->a, mkEq(a->b, b));
        }
      }
      if (a->op == Op::Xor && a->b->isConst()) return mkEq(a->a, mkConst(a->b->v ^ b->v, w));
    } else {
      if (a->op == Op::ZExt && b->op == Op::ZExt) {
        if (a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->a->w < b->a->w) return mkEq(mkZExt(a->a, b->a->w), b->a);
        return mkEq(a->a, mkZExt(b->a, a->a->w));
      }
      if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == Op::Add && b->op == Op::Add && a->b->isConst() && b->b == a->b) return mkEq(a->a, b->a);
      if (a->op == Op::Concat && b->op == Op::Concat && a->b->w == b->b->w)
        return mkAndB(mkEq(a->a, b->a), mkEq(a->b, b->b));
    }
    break;
  case Op::Ult:
    if (a == b) return mkFalse();
    if (b->isConst()) {
      if (b->v == 0) return mkFalse();
      if (b->v == 1) return mkEq(a, mkConst(0, w));
      if (a->op == Op::ZExt) {
        if (b->v > maskw(a->a->w)) return mkTrue();
        return mkBin(Op::Ult, a->a, mkConst(b->v, a->a->w));
      }
      if (a->op == Op::Concat && a->a->isConst()) {
        uint64_t hi = b->v >> a->b->w;
        if (a->a->v < hi) return mkTrue();
        if (a->a->v > hi) return mkFalse();
        return mkBin(Op::Ult, a->b, mkConst(b->v, a->b->w));
      }
    }
    if (a->isConst()) {
      if (a->v == m) return mkFalse();
      if (a->v == 0) return mkNot(mkEq(b, mkConst(0, w)));
      if (b->op == Op::ZExt) {
        if (a->v >= maskw(b->a->w)) return mkFalse();
        return mkBin(Op::Ult, mkConst(a->v, b->a->w), b->a);
      }
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkBin(Op::Ult, a->a, b->a);
    break;
  case Op::Ule:
    if (a == b) return mkTrue();
    if (b->isConst()) {
      if (b->v == m) return mkTrue();
      return mkBin(Op::Ult, a, mkConst(b->v + 1, w));
    }
    if (a->isConst()) {
      if (a->v == 0) return mkTrue();
      return mkBin(Op::Ult, mkConst(a->v - 1, w), b);
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkBin(Op::Ule, a->a, b->a);
    break;
  case Op::Slt:
    if (a == b) return mkFalse();
    if (b->isConst() && a->op == Op::ZExt) { // a non-negative
      if (sext64(b->v, w) <= 0) return mkFalse();
      return mkBin(Op::Ult, a, b);
    }
    if (a->isConst() && b->op == Op::ZExt) {
      if (sext64(a->v, w) < 0) return mkTrue();
      return mkBin(Op::Ult, a, b);
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt) return mkBin(Op::Ult, a, b);
    break;
  case Op::Sle:
    if (a == b) return mkTrue();
    if (b->isConst() && a->op == Op::ZExt) {
      if (sext64(b->v, w) < 0) return mkFalse();
      return mkBin(Op::Ule, a, b);
    }
    if (a->isConst() && b->op == Op::ZExt) {
      if (sext64(a->v, w) <= 0) return mkTrue();
      return mkBin(Op::Ule, a, b);
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt) return mkBin(Op::Ule, a, b);
    break;
  default: break;
  }
  return intern(op, rw, 0, a, b, nullptr);
}

E mkIte(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (c->isConst()) return c->v ? a : b;
  if (a == b) return a;
  if (c->op == Op::Not) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (a->isConst()) return a->v ? mkOrB(c, b) : mkAndB(mkNot(c), b);
    if (b->isConst()) return b->v ? mkOrB(mkNot(c), a) : mkAndB(c, a);
  }
  if (a->op == Op::Ite && a->a == c) a = a->b;
  if (b->op == Op::Ite && b->a == c) b = b->c;
  if (a == b) return a;
  // fields that do not depend on the condition are taken out
  static thread_local unsigned depth = 0;
  struct Depth { Depth() { depth++; } ~Depth() { depth--; } } guard;
  if (depth < 500 && a->w > 1 && (a->op == Op::Concat || b->op == Op::Concat || (a->op == Op::ZExt && b->op == Op::ZExt))) {
    unsigned w = a->w;
    uint64_t ca = 0, cb = 0;
    pieces(a, 0, ca); pieces(b, 0, cb);
    uint64_t cuts = ca | cb;
    std::vector<std::pair<E, E>> ps;
    bool common = false;
    for (unsigned lo = 0; lo < w;) {
      uint64_t rest = lo + 1 >= 64 ? 0 : cuts >> (lo + 1);
      unsigned hi = rest ? lo + 1 + (unsigned)__builtin_ctzll(rest) : w;
      if (hi > w) hi = w;
      E x = mkExtract(a, lo, hi - lo), y = mkExtract(b, lo, hi - lo);
      // a piece that depends on the condition itself is not common (putting the pieces together would undo the split)
      if (x->op == Op::Ite && x->a == c) x = x->b;
      if (y->op == Op::Ite && y->a == c) y = y->c;
      if (x == y) common = true;
      if (!ps.empty() && ((x == y) == (ps.back().first == ps.back().second))) {
        ps.back() = {mkConcat(x, ps.back().first), mkConcat(y, ps.back().second)};
        if (x == y) ps.back().second = ps.back().first;
      } else ps.push_back({x, y});
      lo = hi;
    }
    if (common && ps.size() > 1) {
      E r = nullptr;
      for (auto &p : ps) { E t = mkIte(c, p.first, p.second); r = r ? mkConcat(t, r) : t; }
      return r;
    }
  }
  // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
  if (b->op == Op::Ite && b->b == a) return mkIte(mkOrB(c, b->a), a, b->c);
  if (b->op == Op::Ite && b->c == a) return mkIte(mkAndB(mkNot(c), b->a), b->b, a);
  if (a->op == Op::Ite && a->c == b) return mkIte(mkAndB(c, a->a), a->b, b);
  if (a->op == Op::Ite && a->b == b) return mkIte(mkAndB(c, mkNot(a->a)), a->c, b);
  return intern(Op::Ite, a->w, 0, c, a, b);
}

E mkZExt(E a, unsigned w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->v, w);
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  if (a->op == Op::Ite && a->leaves && a->leaves <= PUSH_LEAVES) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return intern(Op::ZExt, w, 0, a, nullptr, nullptr);
}
E mkSExt(E a, unsigned w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (a->isConst()) return mkConst((uint64_t)sext64(a->v, a->w), w);
  if (a->op == Op::SExt) return mkSExt(a->a, w);
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  if (a->op == Op::Ite && a->leaves && a->leaves <= PUSH_LEAVES) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(Op::SExt, w, 0, a, nullptr, nullptr);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w);
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->v >> lo, w);
  switch (a->op) {
  case Op::Extract: return mkExtract(a->a, (unsigned)a->v + lo, w);
  case Op::ZExt:
    if (lo >= a->a->w) return mkConst(0, w);
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
  case Op::SExt:
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
    break;
  case Op::Concat:
    if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
    if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
  case Op::And: case Op::Or: case Op::Xor:
    if (a->b->isConst() || w == 1 || a->a->op == Op::Concat || a->b->op == Op::Concat || a->a->op == Op::ZExt || a->b->op == Op::ZExt)
      return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    break;
  case Op::Not: return mkNot(mkExtract(a->a, lo, w));
  case Op::Add: case Op::Sub: case Op::Mul:
    if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case Op::Ite: {
    auto simple = [](E x) { return x->op == Op::Const || x->op == Op::Concat || x->op == Op::ZExt; };
    if ((a->leaves && a->leaves <= PUSH_LEAVES) || simple(a->b) || simple(a->c))
      return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  }
  default: break;
  }
  return intern(Op::Extract, w, lo, a, nullptr, nullptr);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  assert(w <= 64);
  if (hi->isConst() && lo->isConst()) return mkConst((hi->v << lo->w) | lo->v, w);
  if (hi->isConst() && hi->v == 0) return mkZExt(lo, w);
  // adjacent pieces of the same value
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->v == lo->v + lo->w)
    return mkExtract(lo->a, (unsigned)lo->v, w);
  if (hi->op == Op::Extract && hi->v >= lo->w && mkExtract(hi->a, (unsigned)hi->v - lo->w, lo->w) == lo)
    return mkExtract(hi->a, (unsigned)hi->v - lo->w, w);
  if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
  if (lo->op == Op::Concat) {
    E t = nullptr;
    if (hi->op == Op::Extract && lo->a->op == Op::Extract && hi->a == lo->a->a && hi->v == lo->a->v + lo->a->w)
      t = mkExtract(hi->a, (unsigned)lo->a->v, hi->w + lo->a->w);
    else if (hi->op == Op::Extract && hi->v >= lo->a->w && mkExtract(hi->a, (unsigned)hi->v - lo->a->w, lo->a->w) == lo->a)
      t = mkExtract(hi->a, (unsigned)hi->v - lo->a->w, hi->w + lo->a->w);
    else if (hi->isConst() && lo->a->isConst()) t = mkConst((hi->v << lo->a->w) | lo->a->v, hi->w + lo->a->w);
    else if (hi->op == Op::Ite && lo->a->op == Op::Ite && hi->a == lo->a->a)
      t = mkIte(hi->a, mkConcat(hi->b, lo->a->b), mkConcat(hi->c, lo->a->c));
    if (t) return mkConcat(t, lo->b);
  }
  if (hi->op == Op::Ite && lo->op == Op::Ite && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->op == Op::Ite && lo->isConst() && hi->leaves && hi->leaves <= PUSH_LEAVES)
    return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  if (lo->op == Op::Ite && hi->isConst() && lo->leaves && lo->leaves <= PUSH_LEAVES)
    return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  // sign extension pieces are kept as they are
  return intern(Op::Concat, w, 0, hi, lo, nullptr);
}

static uint32_t g_gen = 0;
static uint64_t ev(E e, const Model &m) {
  if (e->op == Op::Const) return e->v;
  if (e->eg == g_gen) return e->ev;
  uint64_t r = 0;
  switch (e->op) {
  case Op::Var: r = e->v < m.size() ? m[e->v] & maskw(e->w) : 0; break;
  case Op::Not: r = ~ev(e->a, m) & maskw(e->w); break;
  case Op::Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
  case Op::ZExt: r = ev(e->a, m); break;
  case Op::SExt: r = (uint64_t)sext64(ev(e->a, m), e->a->w) & maskw(e->w); break;
  case Op::Extract: r = (ev(e->a, m) >> e->v) & maskw(e->w); break;
  case Op::Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
  default: r = foldBin(e->op, ev(e->a, m), ev(e->b, m), e->a->w);
  }
  e->eg = g_gen; e->ev = r;
  return r;
}
uint64_t evalExpr(E e, const Model &m) { ++g_gen; return ev(e, m); }

namespace {
struct VSHash { size_t operator()(const VarSet &v) const { size_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull; return h; } };
std::unordered_set<VarSet, VSHash> &vsTable() { static std::unordered_set<VarSet, VSHash> t; return t; }
const VarSet *internVS(VarSet &&v) { return &*vsTable().insert(std::move(v)).first; }
}
static const VarSet *unionVS(const VarSet *x, const VarSet *y) {
  if (x == y || y->empty()) return x;
  if (x->empty()) return y;
  if (x > y) std::swap(x, y);
  uint64_t key = ((uint64_t)(uintptr_t)x * 0x9E3779B97F4A7C15ull) ^ (uint64_t)(uintptr_t)y;
  (void)key;
  VarSet r; r.reserve(x->size() + y->size());
  std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
  if (r.size() == x->size()) return x;
  if (r.size() == y->size()) return y;
  return internVS(std::move(r));
}
const VarSet &varsOf(E e) {
  if (e->vs) return *e->vs;
  const VarSet *r;
  static const VarSet *empty = internVS(VarSet{});
  if (e->op == Op::Const) r = empty;
  else if (e->op == Op::Var) r = internVS(VarSet{(uint32_t)e->v});
  else {
    r = &varsOf(e->a);
    if (e->b) r = unionVS(r, &varsOf(e->b));
    if (e->c) r = unionVS(r, &varsOf(e->c));
  }
  e->vs = r;
  return *r;
}

std::string exprStr(E e, int d) {
  static const char *n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","not","ite","zext","sext","extract","concat"};
  if (e->op == Op::Const) return std::to_string(e->v) + ":" + std::to_string(e->w);
  if (e->op == Op::Var) return g_vars[e->v].name;
  if (d <= 0) return "...";
  std::string s = std::string("(") + n[(int)e->op];
  if (e->op == Op::Extract) s += "@" + std::to_string(e->v);
  if (e->op == Op::Extract || e->op == Op::ZExt || e->op == Op::SExt) s += ":" + std::to_string(e->w);
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}


E renameInternal(E e) {
  static std::unordered_map<uint32_t, E> twin; // by variable
  static std::unordered_map<E, E> memo;
  bool any = false;
  for (uint32_t v : varsOf(e)) if (g_vars[v].internal) { any = true; break; }
  if (!any) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E r = e;
  switch (e->op) {
  case Op::Var: {
    auto &t = twin[(uint32_t)e->v];
    if (!t) t = mkVar(g_vars[e->v].name + "'", e->w, true);
    r = t;
    break;
  }
  case Op::Not: r = mkNot(renameInternal(e->a)); break;
  case Op::Ite: r = mkIte(renameInternal(e->a), renameInternal(e->b), renameInternal(e->c)); break;
  case Op::ZExt: r = mkZExt(renameInternal(e->a), e->w); break;
  case Op::SExt: r = mkSExt(renameInternal(e->a), e->w); break;
  case Op::Extract: r = mkExtract(renameInternal(e->a), (unsigned)e->v, e->w); break;
  case Op::Concat: r = mkConcat(renameInternal(e->a), renameInternal(e->b)); break;
  default: r = mkBin(e->op, renameInternal(e->a), renameInternal(e->b)); break;
  }
  memo[e] = r;
  return r;
}

} // namespace sx
