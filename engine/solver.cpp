#include "solver.h"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <string>

namespace sx {
SolverStats g_ss;

static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "symx: Z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}

Solver::Solver(unsigned t) : timeout(t) {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); // AST reference counting off: ASTs live as long as the context
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
}

Z3_ast Solver::trBV(E e) {
  Z3_ast t = tr(e);
  if (e->w != 1) return t;
  Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
  return Z3_mk_ite(ctx, t, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1));
}

// width-1 expressions are translated to Bool
Z3_ast Solver::tr(E e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr;
  bool b1 = e->w == 1;
  auto toBool = [&](Z3_ast bv) { return Z3_mk_eq(ctx, bv, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); };
  switch (e->op) {
  case Op::Const:
    r = b1 ? (e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, e->v, Z3_mk_bv_sort(ctx, e->w));
    break;
  case Op::Var: {
    Z3_symbol s = Z3_mk_int_symbol(ctx, (int)e->v);
    r = Z3_mk_const(ctx, s, b1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w));
    break;
  }
  case Op::Add: if (b1) r = Z3_mk_xor(ctx, tr(e->a), tr(e->b)); else r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
  case Op::Sub: if (b1) r = Z3_mk_xor(ctx, tr(e->a), tr(e->b)); else r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
  case Op::Mul: if (b1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
  case Op::And: if (b1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
  case Op::Or: if (b1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_or(ctx, 2, x); } else r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
  case Op::Xor: if (b1) r = Z3_mk_xor(ctx, tr(e->a), tr(e->b)); else r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
  case Op::UDiv: r = Z3_mk_bvudiv(ctx, trBV(e->a), trBV(e->b)); if (b1) r = toBool(r); break;
  case Op::SDiv: r = Z3_mk_bvsdiv(ctx, trBV(e->a), trBV(e->b)); if (b1) r = toBool(r); break;
  case Op::URem: r = Z3_mk_bvurem(ctx, trBV(e->a), trBV(e->b)); if (b1) r = toBool(r); break;
  case Op::SRem: r = Z3_mk_bvsrem(ctx, trBV(e->a), trBV(e->b)); if (b1) r = toBool(r); break;
  case Op::Shl: r = Z3_mk_bvshl(ctx, trBV(e->a), trBV(e->b)); if (b1) r = toBool(r); break;
  case Op::LShr: r = Z3_mk_bvlshr(ctx, trBV(e->a), trBV(e->b)); if (b1) r = toBool(r); break;
  case Op::AShr: r = Z3_mk_bvashr(ctx, trBV(e->a), trBV(e->b)); if (b1) r = toBool(r); break;
  case Op::Eq: r = Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
  case Op::Ult: r = Z3_mk_bvult(ctx, trBV(e->a), trBV(e->b)); break;
  case Op::Ule: r = Z3_mk_bvule(ctx, trBV(e->a), trBV(e->b)); break;
  case Op::Slt: r = Z3_mk_bvslt(ctx, trBV(e->a), trBV(e->b)); break;
  case Op::Sle: r = Z3_mk_bvsle(ctx, trBV(e->a), trBV(e->b)); break;
  case Op::Not: r = b1 ? Z3_mk_not(ctx, tr(e->a)) : Z3_mk_bvnot(ctx, tr(e->a)); break;
  case Op::Ite: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
  case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, trBV(e->a)); break;
  case Op::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, trBV(e->a)); break;
  case Op::Extract:
    r = Z3_mk_extract(ctx, (unsigned)e->v + e->w - 1, (unsigned)e->v, trBV(e->a));
    if (b1) r = toBool(r);
    break;
  case Op::Concat: r = Z3_mk_concat(ctx, trBV(e->a), trBV(e->b)); break;
  }
  e->z = r;
  return r;
}

Res Solver::solve(const std::vector<E> &cs, Model &out, const VarSet &vars) {
  auto t0 = std::chrono::steady_clock::now();
  if (!slv) {
    slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout);
    Z3_solver_set_params(ctx, slv, p);
    Z3_params_dec_ref(ctx, p);
  }
  Z3_solver_push(ctx, slv);
  for (E c : cs) Z3_solver_assert(ctx, slv, tr(c));
  Z3_lbool r = Z3_solver_check(ctx, slv);
  Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (res == Res::Sat) {
    Z3_model m = Z3_solver_get_model(ctx, slv);
    Z3_model_inc_ref(ctx, m);
    for (uint32_t v : vars) {
      unsigned w = g_vars[v].w;
      Z3_symbol s = Z3_mk_int_symbol(ctx, (int)v);
      Z3_ast c = Z3_mk_const(ctx, s, w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w));
      Z3_ast val = nullptr;
      uint64_t x = 0;
      if (Z3_model_eval(ctx, m, c, true, &val)) {
        if (w == 1) x = Z3_get_bool_value(ctx, val) == Z3_L_TRUE;
        else Z3_get_numeral_uint64(ctx, val, &x);
      }
      if (out.size() <= v) out.resize(v + 1, 0);
      out[v] = x;
    }
    Z3_model_dec_ref(ctx, m);
  }
  Z3_solver_pop(ctx, slv, 1);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.queries++;
  g_ss.seconds += dt;
  if (dt > g_ss.maxSeconds) g_ss.maxSeconds = dt;
  if (res == Res::Sat) g_ss.sat++; else if (res == Res::Unsat) g_ss.unsat++; else g_ss.unknown++;
  return res;
}

Res Solver::checkAll(const std::vector<E> &pc, Model *out) {
  VarSet all;
  for (E c : pc) { VarSet t; std::set_union(all.begin(), all.end(), varsOf(c).begin(), varsOf(c).end(), std::back_inserter(t)); all.swap(t); }
  Model m;
  Res r = solve(pc, m, all);
  if (r == Res::Sat) {
    for (E c : pc) if (!evalExpr(c, m)) { fprintf(stderr, "symx: internal: model does not satisfy constraint\n"); abort(); }
    if (out) *out = m;
  }
  return r;
}

Res Solver::check(const std::vector<E> &pc, E cond, const Model &m, Model *out) {
  if (cond->isConst()) {
    if (!cond->v) return Res::Unsat;
    if (out) *out = m;
    return Res::Sat;
  }
  if (evalExpr(cond, m)) {
    g_ss.modelHits++;
    if (out) *out = m;
    return Res::Sat;
  }
  E neg = mkNot(cond);
  for (E c : pc) if (c == neg) { g_ss.syntactic++; return Res::Unsat; }
  // slice
  std::vector<E> cs{cond};
  VarSet vars = varsOf(cond);
  std::vector<char> used(pc.size(), 0);
  static std::vector<uint32_t> mark; static uint32_t gen = 0;
  if (mark.size() < g_vars.size()) mark.resize(g_vars.size() + 64, 0);
  ++gen;
  for (uint32_t v : vars) mark[v] = gen;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = pc.size(); i-- > 0;) {
      if (used[i]) continue;
      const VarSet &vs = varsOf(pc[i]);
      bool hit = false;
      for (uint32_t v : vs) if (mark[v] == gen) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; cs.push_back(pc[i]); ch = true;
      for (uint32_t v : vs) if (mark[v] != gen) { mark[v] = gen; vars.push_back(v); }
    }
  }
  std::sort(vars.begin(), vars.end());
  std::vector<uint32_t> key;
  for (E c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  uint64_t h = 1469598103934665603ull;
  for (auto k : key) h = (h ^ k) * 1099511628211ull;
  auto &bucket = cache[h];
  for (auto &p : bucket)
    if (p.first == key) {
      g_ss.cacheHits++;
      if (p.second.r == Res::Sat && out) {
        *out = m;
        for (auto &kv : p.second.vals) { if (out->size() <= kv.first) out->resize(kv.first + 1, 0); (*out)[kv.first] = kv.second; }
      }
      return p.second.r;
    }
  Model nm = m;
  Res r = solve(cs, nm, vars);
  Cached c; c.r = r;
  if (r == Res::Sat) {
    for (uint32_t v : vars) c.vals.push_back({v, v < nm.size() ? nm[v] : 0});
    for (E x : cs) if (!evalExpr(x, nm)) { fprintf(stderr, "symx: internal: model does not satisfy constraint %s\n", exprStr(x).c_str()); abort(); }
    if (out) *out = std::move(nm);
  }
  if (r != Res::Unknown) bucket.push_back({std::move(key), std::move(c)});
  return r;
}

} // namespace sx
