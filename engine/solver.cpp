#include "solver.h"
#include <z3.h>
#include <signal.h>
#include <sys/time.h>
#include <cstring>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>

SolverStats g_ss;
unsigned g_rlimit = 400000;          // in thousands
static Z3_context C;
static Z3_solver S_inc;
static std::vector<Z3_ast> g_bv, g_bl;     // memo by expr id (inc_ref'd)
static Z3_sort sortBV(unsigned w) { static std::unordered_map<unsigned, Z3_sort> m; auto& s = m[w]; if (!s) { s = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); } return s; }
static Z3_sort f32, f64; static Z3_ast RNE, RTZ;
static bool g_err = false;
static void onErr(Z3_context c, Z3_error_code e) { g_err = true; if (getenv("LSX_DEBUG")) fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

void solverInit() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(C, onErr);
  f32 = Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, Z3_sort_to_ast(C, f32));
  f64 = Z3_mk_fpa_sort_64(C); Z3_inc_ref(C, Z3_sort_to_ast(C, f64));
  RNE = Z3_mk_fpa_rne(C); Z3_inc_ref(C, RNE); RTZ = Z3_mk_fpa_rtz(C); Z3_inc_ref(C, RTZ);
  S_inc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S_inc);
}
static Z3_ast toBool(E e);
static Z3_ast bit(int v) { static Z3_ast b[2]; if (!b[v]) { b[v] = Z3_mk_unsigned_int64(C, v, sortBV(1)); Z3_inc_ref(C, b[v]); } return b[v]; }
static Z3_ast fp(Z3_ast bv, unsigned w) { return Z3_mk_fpa_to_fp_bv(C, bv, w == 32 ? f32 : f64); }
static Z3_ast toBV(E e) {
  if (e->id < g_bv.size() && g_bv[e->id]) return g_bv[e->id];
  Z3_ast r = nullptr;
  auto A = [&] { return toBV(e->a); }; auto B = [&] { return toBV(e->b); };
  if (e->w == 1 && e->op != Op::Const && e->op != Op::Var && e->op != Op::Extract) {
    Z3_ast b = toBool(e); Z3_inc_ref(C, b);
    r = Z3_mk_ite(C, b, bit(1), bit(0));
  } else switch (e->op) {
    case Op::Const:
      if (e->w <= 64) r = Z3_mk_unsigned_int64(C, (uint64_t)e->val, sortBV(e->w));
      else { Z3_ast h = Z3_mk_unsigned_int64(C, (uint64_t)(e->val >> 64), sortBV(e->w - 64)); Z3_inc_ref(C, h); Z3_ast l = Z3_mk_unsigned_int64(C, (uint64_t)e->val, sortBV(64)); Z3_inc_ref(C, l); r = Z3_mk_concat(C, h, l); }
      break;
    case Op::Var: { std::string n = "v" + std::to_string(e->aux); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), sortBV(e->w)); break; }
    case Op::Add: r = Z3_mk_bvadd(C, A(), B()); break;
    case Op::Sub: r = Z3_mk_bvsub(C, A(), B()); break;
    case Op::Mul: r = Z3_mk_bvmul(C, A(), B()); break;
    case Op::UDiv: r = Z3_mk_bvudiv(C, A(), B()); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(C, A(), B()); break;
    case Op::URem: r = Z3_mk_bvurem(C, A(), B()); break;
    case Op::SRem: r = Z3_mk_bvsrem(C, A(), B()); break;
    case Op::And: r = Z3_mk_bvand(C, A(), B()); break;
    case Op::Or: r = Z3_mk_bvor(C, A(), B()); break;
    case Op::Xor: r = Z3_mk_bvxor(C, A(), B()); break;
    case Op::Shl: r = Z3_mk_bvshl(C, A(), B()); break;
    case Op::LShr: r = Z3_mk_bvlshr(C, A(), B()); break;
    case Op::AShr: r = Z3_mk_bvashr(C, A(), B()); break;
    case Op::Ite: { Z3_ast c = toBool(e->a); r = Z3_mk_ite(C, c, B(), toBV(e->c)); break; }
    case Op::ZExt: r = Z3_mk_zero_ext(C, e->w - e->a->w, A()); break;
    case Op::SExt: r = Z3_mk_sign_ext(C, e->w - e->a->w, A()); break;
    case Op::Extract: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, A()); break;
    case Op::Concat: r = Z3_mk_concat(C, A(), B()); break;
    default: {
      unsigned sw = e->a->w; Z3_ast x, t = nullptr;
      if (e->op == Op::SIToF || e->op == Op::UIToF) {
        t = e->op == Op::SIToF ? Z3_mk_fpa_to_fp_signed(C, RNE, A(), e->w == 32 ? f32 : f64) : Z3_mk_fpa_to_fp_unsigned(C, RNE, A(), e->w == 32 ? f32 : f64);
      } else {
        x = fp(A(), sw); Z3_inc_ref(C, x); Z3_ast y = e->b ? fp(B(), sw) : nullptr; if (y) Z3_inc_ref(C, y);
        switch (e->op) {
          case Op::FAdd: t = Z3_mk_fpa_add(C, RNE, x, y); break;
          case Op::FSub: t = Z3_mk_fpa_sub(C, RNE, x, y); break;
          case Op::FMul: t = Z3_mk_fpa_mul(C, RNE, x, y); break;
          case Op::FDiv: t = Z3_mk_fpa_div(C, RNE, x, y); break;
          case Op::FSqrt: t = Z3_mk_fpa_sqrt(C, RNE, x); break;
          case Op::FToSI: r = Z3_mk_fpa_to_sbv(C, RTZ, x, e->w); break;
          case Op::FToUI: r = Z3_mk_fpa_to_ubv(C, RTZ, x, e->w); break;
          case Op::FExt: t = Z3_mk_fpa_to_fp_float(C, RNE, x, f64); break;
          case Op::FTrunc: t = Z3_mk_fpa_to_fp_float(C, RNE, x, f32); break;
          default: fprintf(stderr, "lsx: toBV op %d\n", (int)e->op); abort();
        }
      }
      if (!r) { Z3_inc_ref(C, t); r = Z3_mk_fpa_to_ieee_bv(C, t); }
    }
  }
  Z3_inc_ref(C, r);
  if (e->id >= g_bv.size()) g_bv.resize(numExprs() + 1024, nullptr);
  g_bv[e->id] = r; return r;
}
static Z3_ast toBool(E e) {
  if (e->id < g_bl.size() && g_bl[e->id]) return g_bl[e->id];
  Z3_ast r = nullptr;
  switch (e->op) {
    case Op::Const: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case Op::And: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(C, 2, x); break; }
    case Op::Or: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(C, 2, x); break; }
    case Op::Xor: if (isTrue(e->b)) r = Z3_mk_not(C, toBool(e->a)); else r = Z3_mk_xor(C, toBool(e->a), toBool(e->b)); break;
    case Op::Eq: r = e->a->w == 1 ? Z3_mk_iff(C, toBool(e->a), toBool(e->b)) : Z3_mk_eq(C, toBV(e->a), toBV(e->b)); break;
    case Op::Ult: r = Z3_mk_bvult(C, toBV(e->a), toBV(e->b)); break;
    case Op::Ule: r = Z3_mk_bvule(C, toBV(e->a), toBV(e->b)); break;
    case Op::Slt: r = Z3_mk_bvslt(C, toBV(e->a), toBV(e->b)); break;
    case Op::Sle: r = Z3_mk_bvsle(C, toBV(e->a), toBV(e->b)); break;
    case Op::Ite: r = Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c)); break;
    case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno: {
      Z3_ast x = fp(toBV(e->a), e->a->w); Z3_inc_ref(C, x); Z3_ast y = fp(toBV(e->b), e->a->w); Z3_inc_ref(C, y);
      if (e->op == Op::FOeq) r = Z3_mk_fpa_eq(C, x, y);
      else if (e->op == Op::FOlt) r = Z3_mk_fpa_lt(C, x, y);
      else if (e->op == Op::FOle) r = Z3_mk_fpa_leq(C, x, y);
      else { Z3_ast z[2] = {Z3_mk_fpa_is_nan(C, x), nullptr}; Z3_inc_ref(C, z[0]); z[1] = Z3_mk_fpa_is_nan(C, y); Z3_inc_ref(C, z[1]); r = Z3_mk_or(C, 2, z); }
      break; }
    default: r = Z3_mk_eq(C, toBV(e), bit(1));
  }
  Z3_inc_ref(C, r);
  if (e->id >= g_bl.size()) g_bl.resize(numExprs() + 1024, nullptr);
  g_bl[e->id] = r; return r;
}

static bool hasFp(E e, std::unordered_set<E>& seen) {
  if (!seen.insert(e).second) return false;
  if (e->op >= Op::FAdd) return true;
  for (E k : {e->a, e->b, e->c}) if (k && hasFp(k, seen)) return true;
  return false;
}
// "hard" = contains multiplication/division of non-constant operands
static bool isHard(E e, std::unordered_set<E>& seen) {
  if (!seen.insert(e).second) return false;
  if (e->op == Op::Mul || e->op == Op::UDiv || e->op == Op::SDiv || e->op == Op::URem || e->op == Op::SRem) return true;
  for (E k : {e->a, e->b, e->c}) if (k && isHard(k, seen)) return true;
  return false;
}

static void extractModel(Z3_solver s, const std::vector<uint32_t>& vars, Model& out) {
  Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
  for (uint32_t v : vars) {
    std::string n = "v" + std::to_string(v);
    Z3_ast c = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), sortBV(g_vars[v].w)); Z3_inc_ref(C, c);
    Z3_ast r = nullptr; uint64_t x = 0;
    if (Z3_model_eval(C, m, c, true, &r) && r) { Z3_inc_ref(C, r); Z3_get_numeral_uint64(C, r, &x); Z3_dec_ref(C, r); }
    out.set(v, x); Z3_dec_ref(C, c);
  }
  Z3_model_dec_ref(C, m);
}

static void setParam(Z3_solver s, const char* k, unsigned v) {
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, k), v);
  Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
}

// wall-clock limit per query: SIGALRM interrupts z3
double g_queryTimeout = 60; double (*g_timeLeft)() = nullptr;
static volatile bool inZ3 = false;
static void onAlarm(int) { if (inZ3) Z3_interrupt(C); }
static Z3_lbool guardedCheck(Z3_solver s) {
  static bool inst = false; if (!inst) { inst = true; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr); }
  double t = g_queryTimeout; if (g_timeLeft) { double l = g_timeLeft() + 2; if (l < t) t = l; } if (t < 0.5) t = 0.5;
  struct itimerval it; it.it_value.tv_sec = (long)t; it.it_value.tv_usec = (long)((t - (long)t) * 1e6); it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 200000;
  inZ3 = true; setitimer(ITIMER_REAL, &it, nullptr);
  Z3_lbool r = Z3_solver_check(C, s);
  inZ3 = false; memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, nullptr);
  return r;
}
static Sat z3solve(const std::vector<E>& cs, const std::vector<uint32_t>& vars, Model& out) {
  auto t0 = std::chrono::steady_clock::now();
  g_ss.z3calls++;
  std::unordered_set<E> seen; bool f = false, hard = false;
  for (E e : cs) if (hasFp(e, seen)) f = true;
  seen.clear();
  if (!f) for (E e : cs) if (isHard(e, seen)) { hard = true; break; }
  Z3_lbool r = Z3_L_UNDEF;
  if (!f && !hard) {
    Z3_solver_push(C, S_inc);
    setParam(S_inc, "rlimit", 3000000);
    for (E e : cs) Z3_solver_assert(C, S_inc, toBool(e));
    g_err = false;
    r = guardedCheck(S_inc);
    if (g_err) r = Z3_L_UNDEF;
    if (r == Z3_L_TRUE) extractModel(S_inc, vars, out);
    Z3_solver_pop(C, S_inc, 1);
  }
  if (r == Z3_L_UNDEF) {
    Z3_solver s;
    if (f) { s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV")); }
    else {
      static Z3_tactic T = nullptr;
      if (!T) {
        const char* names[] = {"simplify", "propagate-values", "solve-eqs", "simplify", "max-bv-sharing", "bit-blast", "aig", "sat"};
        for (int i = 7; i >= 0; i--) { 
          if (!strcmp(names[i], "aig")) continue;
          Z3_tactic t = Z3_mk_tactic(C, names[i]); Z3_tactic_inc_ref(C, t); if (T) { Z3_tactic n = Z3_tactic_and_then(C, t, T); Z3_tactic_inc_ref(C, n); T = n; } else T = t; }
      }
      s = Z3_mk_solver_from_tactic(C, T);
    }
    Z3_solver_inc_ref(C, s);
    if (g_rlimit) setParam(s, "rlimit", g_rlimit > 4000000 ? 4000000000u : g_rlimit * 1000u);
    for (E e : cs) Z3_solver_assert(C, s, toBool(e));
    g_err = false;
    r = guardedCheck(s);
    if (g_err) r = Z3_L_UNDEF;
    if (r == Z3_L_TRUE) extractModel(s, vars, out);
    Z3_solver_dec_ref(C, s);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.z3time += dt; if (dt > g_ss.maxQuery) g_ss.maxQuery = dt;
  if (getenv("LSX_SLOWQ") && dt > atof(getenv("LSX_SLOWQ"))) {
    fprintf(stderr, "slow query %.2fs -> %d (%zu constraints)\n", dt, (int)r, cs.size());
    fprintf(stderr, "%s\n", exprStr(cs.back(), getenv("LSX_DUMPD") ? atoi(getenv("LSX_DUMPD")) : 12).substr(0, getenv("LSX_DUMPD") ? 1000000 : 3000).c_str());
  }
  if (r == Z3_L_TRUE) g_ss.sat++; else if (r == Z3_L_FALSE) g_ss.unsat++; else g_ss.unknowns++;
  return r == Z3_L_TRUE ? Sat::Yes : r == Z3_L_FALSE ? Sat::No : Sat::Unknown;
}

struct CacheEnt { Sat r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::string, CacheEnt> g_cache;
static std::vector<ModelP> g_recent; static size_t g_rpos = 0;

static bool inter(const VarSet* a, const std::vector<uint32_t>& sorted, uint64_t bloom) {
  if (!(a->bloom & bloom)) return false;
  size_t i = 0, j = 0;
  while (i < a->v.size() && j < sorted.size()) { if (a->v[i] == sorted[j]) return true; if (a->v[i] < sorted[j]) i++; else j++; }
  return false;
}

Sat checkSat(const std::vector<E>& pc, E cond, const ModelP& hint, ModelP* out) {
  g_ss.queries++;
  if (isFalse(cond)) return Sat::No;
  evalNewGeneration();
  if (evalExpr(cond, *hint)) { if (out) *out = hint; g_ss.modelHits++; return Sat::Yes; }
  if (isTrue(cond)) return Sat::Yes;
  // slice
  std::vector<uint32_t> vars = cond->vars->v; uint64_t bloom = cond->vars->bloom;
  std::vector<E> slice; std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i] && inter(pc[i]->vars, vars, bloom)) {
      used[i] = 1; slice.push_back(pc[i]); ch = true;
      std::vector<uint32_t> n; std::set_union(vars.begin(), vars.end(), pc[i]->vars->v.begin(), pc[i]->vars->v.end(), std::back_inserter(n));
      vars.swap(n); bloom |= pc[i]->vars->bloom;
    }
  }
  std::sort(slice.begin(), slice.end(), [](E a, E b) { return a->id < b->id; });
  slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
  std::string key; key.reserve(slice.size() * 4 + 4);
  for (E e : slice) { if (e == cond) continue; key.append((char*)&e->id, 4); }
  key.append((char*)&cond->id, 4);
  auto it = g_cache.find(key);
  if (it != g_cache.end()) {
    g_ss.cacheHits++;
    if (it->second.r == Sat::Yes && out) { auto m = std::make_shared<Model>(*hint); for (auto& p : it->second.m) m->set(p.first, p.second); *out = m; }
    return it->second.r;
  }
  // try recent models
  for (auto& m : g_recent) {
    evalNewGeneration();
    if (!evalExpr(cond, *m)) continue;
    bool ok = true; for (E e : slice) if (!evalExpr(e, *m)) { ok = false; break; }
    if (ok) {
      g_ss.modelHits++;
      CacheEnt ce{Sat::Yes, {}}; for (auto v : vars) ce.m.push_back({v, m->get(v)});
      if (out) { auto nm = std::make_shared<Model>(*hint); for (auto& p : ce.m) nm->set(p.first, p.second); *out = nm; }
      g_cache.emplace(std::move(key), std::move(ce)); return Sat::Yes;
    }
  }
  std::vector<E> cs = slice; cs.push_back(cond);
  auto nm = std::make_shared<Model>(*hint);
  Sat r = z3solve(cs, vars, *nm);
  if (r == Sat::Yes) {
    // defensive: the model must really satisfy the query under our own evaluator
    evalNewGeneration();
    for (E e : cs) if (!evalExpr(e, *nm)) { 
      fprintf(stderr, "lsx: model check failed: %s\n", exprStr(e, 8).substr(0, 2000).c_str()); r = Sat::Unknown; g_ss.unknowns++; break; }
  }
  CacheEnt ce{r, {}};
  if (r == Sat::Yes) {
    for (auto v : vars) ce.m.push_back({v, nm->get(v)});
    if (out) *out = nm;
    if (g_recent.size() < 24) g_recent.push_back(nm); else { g_recent[g_rpos++ % 24] = nm; }
  }
  if (r != Sat::Unknown) g_cache.emplace(std::move(key), std::move(ce));
  return r;
}
