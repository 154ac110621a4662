#include "expr.h"
#include <algorithm>
#include <deque>
#include <unordered_set>
#include <cmath>

std::vector<VarInfo> g_vars;
static std::deque<Expr> g_pool;
static std::vector<E> g_table(1 << 16, nullptr);
static size_t g_count = 0;
size_t numExprs() { return g_count; }

static inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }

// ---- variable sets
struct VSHash { size_t operator()(const VarSet* s) const { uint64_t h = 7; for (auto x : s->v) h = mix(h * 31 + x); return h; } };
struct VSEq { bool operator()(const VarSet* a, const VarSet* b) const { return a->v == b->v; } };
static std::unordered_set<VarSet*, VSHash, VSEq> g_vs;
static VarSet g_empty;
static const VarSet* internVS(std::vector<uint32_t>&& v) {
  if (v.empty()) return &g_empty;
  VarSet t; t.v = std::move(v);
  auto it = g_vs.find(&t);
  if (it != g_vs.end()) return *it;
  VarSet* n = new VarSet(std::move(t));
  for (auto x : n->v) n->bloom |= 1ull << (x & 63);
  g_vs.insert(n); return n;
}
static std::unordered_map<uint64_t, const VarSet*> g_unionMemo;
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  uint64_t key = mix((uint64_t)a * 1000003ull) ^ (uint64_t)b;
  auto it = g_unionMemo.find(key);
  // key collisions are possible in principle; verify cheaply by containment of the bloom
  if (it != g_unionMemo.end() && it->second->v.size() >= std::max(a->v.size(), b->v.size()) &&
      std::includes(it->second->v.begin(), it->second->v.end(), a->v.begin(), a->v.end()) &&
      std::includes(it->second->v.begin(), it->second->v.end(), b->v.begin(), b->v.end())) return it->second;
  std::vector<uint32_t> r; r.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  const VarSet* s = internVS(std::move(r));
  g_unionMemo[key] = s; return s;
}

static void grow() {
  std::vector<E> n(g_table.size() * 2, nullptr);
  size_t m = n.size() - 1;
  for (E e : g_table) if (e) { size_t i = e->hash & m; while (n[i]) i = (i + 1) & m; n[i] = e; }
  g_table.swap(n);
}

static void knownBits(E e) {
  if (e->w > 64) { e->kz = e->ko = 0; return; }
  uint64_t M = mask64(e->w), z = 0, o = 0;
  auto K = [](E x) { return x; };
  switch (e->op) {
    case Op::Const: o = (uint64_t)e->val; z = ~o & M; break;
    case Op::And: z = e->a->kz | e->b->kz; o = e->a->ko & e->b->ko; break;
    case Op::Or: z = e->a->kz & e->b->kz; o = e->a->ko | e->b->ko; break;
    case Op::Xor: z = (e->a->kz & e->b->kz) | (e->a->ko & e->b->ko); o = (e->a->kz & e->b->ko) | (e->a->ko & e->b->kz); break;
    case Op::ZExt: z = e->a->kz | (M & ~mask64(e->a->w)); o = e->a->ko; break;
    case Op::SExt: {
      z = e->a->kz; o = e->a->ko; uint64_t top = 1ull << (e->a->w - 1), hi = M & ~mask64(e->a->w);
      if (z & top) z |= hi; if (o & top) o |= hi; break; }
    case Op::Extract: if (e->a->w <= 64) { z = (e->a->kz >> e->aux) & M; o = (e->a->ko >> e->aux) & M; } break;
    case Op::Concat: z = (e->a->kz << e->b->w) | e->b->kz; o = (e->a->ko << e->b->w) | e->b->ko; break;
    case Op::Ite: z = e->b->kz & e->c->kz; o = e->b->ko & e->c->ko; break;
    case Op::Shl: if (isC(e->b) && e->b->val < e->w) { unsigned s = (unsigned)e->b->val; z = ((e->a->kz << s) | mask64(s)) & M; if (!s) z = e->a->kz; o = (e->a->ko << s) & M; } break;
    case Op::LShr: if (isC(e->b) && e->b->val < e->w) { unsigned s = (unsigned)e->b->val; z = (e->a->kz >> s) | (M & ~(M >> s)); o = e->a->ko >> s; } break;
    case Op::Add: case Op::Sub: case Op::Mul: {
      // trailing known bits, and leading zeros for Add
      auto tz = [&](E x) { uint64_t k = x->kz | x->ko | ~mask64(x->w); unsigned n = k == ~0ull ? 64 : __builtin_ctzll(~k); return n; };
      unsigned n = std::min({tz(e->a), tz(e->b), (unsigned)e->w});
      if (n) { uint64_t m = mask64(n); uint64_t r = e->op == Op::Add ? e->a->ko + e->b->ko : e->op == Op::Sub ? e->a->ko - e->b->ko : e->a->ko * e->b->ko; o = r & m; z = ~r & m; }
      if (e->op == Op::Mul) {
        auto t0 = [&](E x) { uint64_t k = x->kz; unsigned c = 0; while (c < x->w && (k >> c & 1)) c++; return c; };
        unsigned t = std::min<unsigned>(t0(e->a) + t0(e->b), e->w); z |= mask64(t) & M; if (t == 0) {} 
        u128 ma = ~e->a->kz & mask64(e->a->w), mb = ~e->b->kz & mask64(e->b->w);
        u128 p = ma * mb; if (p <= M) { unsigned l = 0; while (l < 64 && ((uint64_t)p >> l)) l++; z |= M & ~mask64(l); }
      }
      if (e->op == Op::Add) {
        u128 s = (u128)(~e->a->kz & mask64(e->w)) + (~e->b->kz & mask64(e->w));
        if (s <= M) { unsigned l = 0; while (l < 64 && ((uint64_t)s >> l)) l++; z |= M & ~mask64(l); }
      }
      break; }
    case Op::UDiv: { uint64_t ma = ~e->a->kz & M; if (isC(e->b) && e->b->val) ma /= (uint64_t)e->b->val; else break; unsigned l = 0; while (l < 64 && (ma >> l)) l++; z = M & ~mask64(l); break; }
    case Op::URem: { if (isC(e->b) && e->b->val) { uint64_t ma = (uint64_t)e->b->val - 1; unsigned l = 0; while (l < 64 && (ma >> l)) l++; z = M & ~mask64(l); } break; }
    default: (void)K; break;
  }
  e->kz = z & M; e->ko = o & M & ~e->kz;
}

static E intern(Op op, unsigned w, E a, E b, E c, u128 val, uint32_t aux) {
  uint64_t h = mix((uint64_t)op * 131 + w + ((uint64_t)aux << 20));
  h = mix(h ^ (a ? (uint64_t)a->id + 1 : 0)); h = mix(h * 3 ^ (b ? (uint64_t)b->id + 1 : 0)); h = mix(h * 5 ^ (c ? (uint64_t)c->id + 1 : 0));
  if (op == Op::Const) h = mix(h ^ (uint64_t)val ^ mix((uint64_t)(val >> 64)));
  size_t m = g_table.size() - 1, i = h & m;
  while (g_table[i]) {
    E e = g_table[i];
    if (e->hash == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val && e->aux == aux) return e;
    i = (i + 1) & m;
  }
  g_pool.emplace_back();
  E e = &g_pool.back();
  e->op = op; e->w = w; e->id = (uint32_t)g_count++; e->aux = aux; e->a = a; e->b = b; e->c = c; e->val = val; e->hash = h;
  if (op == Op::Var) e->vars = internVS({aux});
  else { const VarSet* s = &g_empty; if (a) s = unionVS(s, a->vars); if (b) s = unionVS(s, b->vars); if (c) s = unionVS(s, c->vars); e->vars = s; }
  knownBits(e);
  g_table[i] = e;
  if (g_count * 2 > g_table.size()) grow();
  return e;
}

E mkConst(u128 v, unsigned w) { return intern(Op::Const, w, 0, 0, 0, v & maskw(w), 0); }
E mkVar(const std::string& name, unsigned w, bool uninit) {
  uint32_t id = g_vars.size(); g_vars.push_back({name, w, uninit});
  return intern(Op::Var, w, 0, 0, 0, 0, id);
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool* ok) {
  u128 M = maskw(w); *ok = true;
  switch (op) {
    case Op::Add: return (a + b) & M;
    case Op::Sub: return (a - b) & M;
    case Op::Mul: return (a * b) & M;
    case Op::UDiv: if (!b) return M; return a / b;
    case Op::URem: if (!b) return a; return a % b;
    case Op::SDiv: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (u128)(0 - (u128)x) & M; return (u128)(x / y) & M; }
    case Op::SRem: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
    case Op::And: return a & b; case Op::Or: return a | b; case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & M;
    case Op::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case Op::AShr: { i128 x = sext128(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : (x >> (unsigned)b)) & M; }
    case Op::Eq: return a == b; case Op::Ult: return a < b; case Op::Ule: return a <= b;
    case Op::Slt: return sext128(a, w) < sext128(b, w); case Op::Sle: return sext128(a, w) <= sext128(b, w);
    default: *ok = false; return 0;
  }
}
static double bd(uint64_t x) { double d; memcpy(&d, &x, 8); return d; }
static float bf(uint64_t x) { uint32_t y = (uint32_t)x; float d; memcpy(&d, &y, 4); return d; }
static uint64_t db(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static uint64_t fb(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
uint64_t foldFp(Op op, uint64_t a, uint64_t b, unsigned sw, unsigned w) {
  auto toS = [&](double d) -> uint64_t { 
    if (std::isnan(d)) return (1ull << (w - 1)) & mask64(w);
    double lim = std::ldexp(1.0, w - 1);
    if (d >= lim || d < -lim - (w < 53 ? 0.9999 : 0)) return (1ull << (w - 1)) & mask64(w);   // x86 'indefinite'
    return (uint64_t)(int64_t)d & mask64(w); };
  auto toU = [&](double d) -> uint64_t { 
    if (std::isnan(d)) return (1ull << 63) & mask64(w);
    if (d < 0 && d > -9.2e18) return (uint64_t)(int64_t)d & mask64(w);
    if (d >= 18446744073709551616.0 || d < 0) return w == 64 ? (1ull << 63) : 0; return (uint64_t)d & mask64(w); };
  if (sw == 64 || op == Op::SIToF || op == Op::UIToF) {
    double x = bd(a), y = bd(b);
    switch (op) {
      case Op::FAdd: return db(x + y); case Op::FSub: return db(x - y); case Op::FMul: return db(x * y); case Op::FDiv: return db(x / y);
      case Op::FOeq: return x == y; case Op::FOlt: return x < y; case Op::FOle: return x <= y; case Op::FUno: return std::isnan(x) || std::isnan(y);
      case Op::FToSI: return toS(x); case Op::FToUI: return toU(x);
      case Op::SIToF: return w == 64 ? db((double)sext64(a, sw)) : fb((float)sext64(a, sw));
      case Op::UIToF: return w == 64 ? db((double)(a & mask64(sw))) : fb((float)(a & mask64(sw)));
      case Op::FTrunc: return fb((float)x); case Op::FSqrt: return db(std::sqrt(x));
      default: return a;
    }
  } else {
    float x = bf(a), y = bf(b);
    switch (op) {
      case Op::FAdd: return fb(x + y); case Op::FSub: return fb(x - y); case Op::FMul: return fb(x * y); case Op::FDiv: return fb(x / y);
      case Op::FOeq: return x == y; case Op::FOlt: return x < y; case Op::FOle: return x <= y; case Op::FUno: return std::isnan(x) || std::isnan(y);
      case Op::FToSI: return toS(x); case Op::FToUI: return toU(x);
      case Op::FExt: return db((double)x); case Op::FSqrt: return fb(std::sqrt(x));
      default: return a;
    }
  }
}

E mkNot(E a) {
  if (isC(a)) return mkBool(!a->val);
  if (a->op == Op::Xor && isTrue(a->b)) return a->a;
  // push negation into comparisons to keep canonical atoms
  if (a->op == Op::Ult) return intern(Op::Ule, 1, a->b, a->a, 0, 0, 0);
  if (a->op == Op::Ule) return intern(Op::Ult, 1, a->b, a->a, 0, 0, 0);
  if (a->op == Op::Slt) return intern(Op::Sle, 1, a->b, a->a, 0, 0, 0);
  if (a->op == Op::Sle) return intern(Op::Slt, 1, a->b, a->a, 0, 0, 0);
  return intern(Op::Xor, 1, a, mkBool(true), 0, 0, 0);
}

static bool commut(Op op) { return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor; }

static bool isTab(E e); static E tabulate(Op op, E a, E b, unsigned w, unsigned lo = 0);
static E mkExtractRaw(E a, unsigned lo, unsigned w);
// the rewriting below descends into shared sub-expressions: remember results, or it takes exponential time
E mkExtract(E a, unsigned lo, unsigned w) {
  switch (a->op) { case Op::And: case Op::Or: case Op::Xor: case Op::Add: case Op::Sub: case Op::Mul: case Op::Ite: break; default: return mkExtractRaw(a, lo, w); }
  struct Slot { E a; unsigned lo, w; E r; }; static thread_local Slot* memo = (Slot*)calloc(1 << 16, sizeof(Slot));
  Slot& c = memo[(a->id * 2654435761u + lo * 40503u + w * 2246822519u) >> 7 & 0xFFFF];
  if (c.a == a && c.lo == lo && c.w == w) return c.r;
  E r = mkExtractRaw(a, lo, w); Slot& d = memo[(a->id * 2654435761u + lo * 40503u + w * 2246822519u) >> 7 & 0xFFFF]; d.a = a; d.lo = lo; d.w = w; d.r = r; return r;
}
static E mkExtractRaw(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->val >> lo, w);
  if (isTab(a)) if (E t = tabulate(Op::Extract, a, nullptr, w, lo)) return t;
  if (a->w <= 64) {
    uint64_t M = mask64(w);
    uint64_t z = (a->kz >> lo) & M, o = (a->ko >> lo) & M;
    if ((z | o) == M) return mkConst(o, w);
  }
  switch (a->op) {
    case Op::Extract: return mkExtract(a->a, a->aux + lo, w);
    case Op::Concat:
      if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
      if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case Op::ZExt:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo >= a->a->w) return mkConst(0, w);
      return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case Op::SExt:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
      return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case Op::And: case Op::Or: case Op::Xor:
      return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case Op::Ite:
      if (isC(a->b) || isC(a->c) || a->b->op == Op::ZExt || a->b->op == Op::Concat || a->c->op == Op::ZExt|| a->c->op == Op::Concat) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      break;
    case Op::Add: case Op::Sub: case Op::Mul:
      if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case Op::Shl: if (isC(a->b) && lo == 0 && a->b->val < w) return mkBin(Op::Shl, mkExtract(a->a, 0, w), mkConst(a->b->val, w)); break;
    default: break;
  }
  return intern(Op::Extract, w, a, 0, 0, 0, lo);
}
E mkTrunc(E a, unsigned w) { return mkExtract(a, 0, w); }
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) return mkTrunc(a, w);
  if (isC(a)) return mkConst(a->val, w);
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  if (isTab(a)) if (E t = tabulate(Op::ZExt, a, nullptr, w)) return t;
  if (a->op == Op::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return intern(Op::ZExt, w, a, 0, 0, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) return mkTrunc(a, w);
  if (isC(a)) return mkConst((u128)sext128(a->val, a->w), w);
  if (a->op == Op::SExt) return mkSExt(a->a, w);
  if (isTab(a)) if (E t = tabulate(Op::SExt, a, nullptr, w)) return t;
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  if (a->w <= 64 && (a->kz >> (a->w - 1) & 1)) return mkZExt(a, w);
  if (a->op == Op::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(Op::SExt, w, a, 0, 0, 0, 0);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
  if (hi->op == Op::ZExt && !isC(lo)) { // (zext x) : lo -> zext (x:lo)
    return mkZExt(mkConcat(hi->a, lo), w);
  }
  if (isTab(hi) || isTab(lo)) if (E t = tabulate(Op::Concat, hi, lo, w)) return t;
  // adjacent extracts of the same expression
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, lo->aux, w);
  if (hi->op == Op::Extract && hi->a == lo && hi->aux == lo->w) return mkExtract(lo, 0, w); // cannot happen (oob) but safe
  if (lo->op == Op::Concat) { // hi : (l1 : l2) with hi,l1 mergeable
    if (hi->op == Op::Extract && lo->a->op == Op::Extract && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w)
      return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
    if (isC(hi) && isC(lo->a)) return mkConcat(mkConcat(hi, lo->a), lo->b);
  }
  if (hi->op == Op::Concat) { // re-associate to the right
    return mkConcat(hi->a, mkConcat(hi->b, lo));
  }
  // sign extension pattern:   extract(sext x, hi) handled by extract
  if (hi->op == Op::SExt && lo->op != Op::Const && hi->a->w == 1 && hi->a->op == Op::Extract && hi->a->a == lo && hi->a->aux == lo->w - 1) return mkSExt(lo, w);
  if (hi->op == Op::Ite && lo->op == Op::Ite && hi->a == lo->a && (isC(hi->b)||isC(hi->c)) ) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return intern(Op::Concat, w, hi, lo, 0, 0, 0);
}

E mkIte(E c, E t, E f) {
  if (isC(c)) return c->val ? t : f;
  if (t == f) return t;
  if (c->op == Op::Xor && isTrue(c->b)) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (isC(t) && isC(f)) return t->val ? c : mkNot(c);
    if (isTrue(t)) return mkBin(Op::Or, c, f);
    if (isFalse(t)) return mkBin(Op::And, mkNot(c), f);
    if (isTrue(f)) return mkBin(Op::Or, mkNot(c), t);
    if (isFalse(f)) return mkBin(Op::And, c, t);
  }
  if (t->op == Op::Ite && t->a == c) return mkIte(c, t->b, f);
  if (f->op == Op::Ite && f->a == c) return mkIte(c, t, f->c);
  if (f->op == Op::Ite && f->b == t) return mkIte(mkBin(Op::Or, c, f->a), t, f->c);
  return intern(Op::Ite, t->w, c, t, f, 0, 0);
}

// An expression over one variable of at most 5 bits is replaced by its table: a decision tree over the bits of
// the variable.  Exact for every value of the variable; keeps division chains over a small range out of the solver.
static bool isTab(E e) { if (e->op == Op::Ite && e->vars->v.size() == 1 && g_vars[e->vars->v[0]].w <= 5) { while (e->op == Op::Ite) e = e->c; return isC(e); } return false; }
static E tabulate(Op op, E a, E b, unsigned w, unsigned lo) {
  const VarSet *x = a->vars, *y = b ? b->vars : nullptr; if (y && y->v.empty()) y = nullptr;
  if (x->v.empty()) x = y; else if (y && *y->v.data() != *x->v.data()) return nullptr;
  if (!x || x->v.size() != 1 || (y && y->v.size() != 1)) return nullptr;
  uint32_t id = x->v[0]; unsigned vw = g_vars[id].w; if (vw > 5) return nullptr;
  u128 val[32]; unsigned cnt = 1u << vw; bool good = true;
  for (unsigned i = 0; i < cnt && good; i++) {
    Model m; m.set(id, i); evalNewGeneration(); u128 p = evalExpr(a, m);
    if (op == Op::Extract) val[i] = (p >> lo) & maskw(w); else if (op == Op::ZExt) val[i] = p; else if (op == Op::SExt) val[i] = (u128)sext128(p, a->w) & maskw(w); else if (op == Op::Concat) val[i] = (p << b->w | evalExpr(b, m)) & maskw(w); else { bool ok; val[i] = foldBin(op, p, evalExpr(b, m), a->w, &ok) & maskw(w); good = ok; }
  }
  evalNewGeneration(); if (!good) return nullptr;
  E var = intern(Op::Var, vw, 0, 0, 0, 0, id);
  struct R { static E go(E var, const u128* val, unsigned w, unsigned bit, unsigned base) { if (!bit) return mkConst(val[base], w); E t = go(var, val, w, bit - 1, base | 1u << (bit - 1)), f = go(var, val, w, bit - 1, base); return t == f ? t : mkIte(mkExtract(var, bit - 1, 1), t, f); } };
  return R::go(var, val, w, vw, 0);
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) { bool ok; u128 r = foldBin(op, a->val, b->val, w, &ok); if (ok) return mkConst(r, w); }
  if (op == Op::UDiv || op == Op::URem || op == Op::SDiv || op == Op::SRem || op == Op::Mul || (w > 1 && (isTab(a) || isTab(b)))) if (E t = tabulate(op, a, b, w)) return t;
  if (commut(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  u128 M = maskw(w);
  switch (op) {
    case Op::Add:
      if (isC(b)) {
        if (!b->val) return a;
        if (a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, a->a, mkConst(a->b->val + b->val, w));
        if (a->op == Op::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->val + b->val, w), mkConst(a->c->val + b->val, w));
        // disjoint bits: keep as add
      } else {
        if (a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, mkBin(Op::Add, a->a, b), a->b);
        if (b->op == Op::Add && isC(b->b)) return mkBin(Op::Add, mkBin(Op::Add, a, b->a), b->b);
        if (b->op == Op::Sub && b->b == a) return b->a;
        if (a->op == Op::Sub && a->b == b) return a->a;
        if (w > 1 && w <= 64 && !(~a->kz & ~b->kz & (uint64_t)M)) return mkBin(Op::Or, a, b);
        // sums have one form whatever the order of additions
        if (w > 1 && (a->op == Op::Add || b->op == Op::Add)) {
          E leaf[160]; unsigned n = 0; E st[320]; unsigned sp = 0; st[sp++] = a; st[sp++] = b; bool fit = true;
          while (sp && fit) { E x = st[--sp]; if (x->op == Op::Add && sp + 2 <= 320) { st[sp++] = x->a; st[sp++] = x->b; } else if (n < 160) leaf[n++] = x; else fit = false; }
          if (fit) {
            std::sort(leaf, leaf + n, [](E x, E y) { return x->id < y->id; }); E acc = leaf[0];
            for (unsigned i = 1; i < n; i++) acc = acc->id <= leaf[i]->id ? intern(Op::Add, w, acc, leaf[i], 0, 0, 0) : intern(Op::Add, w, leaf[i], acc, 0, 0, 0);
            return acc;
          }
        }
      }
      if (w == 1) return mkBin(Op::Xor, a, b);
      break;
    case Op::Sub:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(Op::Add, a, mkConst(0 - b->val, w));
      if (a->op == Op::Add && a->a == b) return a->b;
      if (a->op == Op::Add && a->b == b) return a->a;
      if (a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, mkBin(Op::Sub, a->a, b), a->b);
      if (b->op == Op::Add && isC(b->b)) return mkBin(Op::Add, mkBin(Op::Sub, a, b->a), mkConst(0 - b->b->val, w));
      if (w == 1) return mkBin(Op::Xor, a, b);
      break;
    case Op::Mul:
      if (isC(b)) {
        if (!b->val) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(Op::Shl, a, mkConst(s, w)); }
        if (a->op == Op::Mul && isC(a->b)) return mkBin(Op::Mul, a->a, mkConst(a->b->val * b->val, w));
      }
      if (w == 1) return mkBin(Op::And, a, b);
      break;
    case Op::UDiv:
      if (isC(b) && b->val == 1) return a;
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(Op::LShr, a, mkConst(s, w)); }
      if (isC(b) && b->val && w <= 64 && (uint64_t)(~a->kz & (uint64_t)M) < (uint64_t)b->val) return mkConst(0, w);
      // narrow when the operands are known small
      if (isC(b) && w <= 64 && b->val) {
        uint64_t mx = (~a->kz & (uint64_t)M) | (uint64_t)b->val; unsigned l = 64 - __builtin_clzll(mx | 1);
        if (l < w) return mkZExt(mkBin(Op::UDiv, mkTrunc(a, l), mkConst(b->val, l)), w);
      }
      // few possible quotients: compare with the multiples of the divisor
      if (isC(b) && w <= 64 && b->val) {
        uint64_t c = (uint64_t)b->val, q = (~a->kz & (uint64_t)M) / c;
        if (q <= 4) { E r = mkConst(0, w); for (uint64_t k = 1; k <= q; k++) r = mkIte(mkCmp(Op::Ult, a, mkConst(k * c, w)), r, mkConst(k, w)); return r; }
      }
      break;
    case Op::URem:
      if (isC(b) && b->val == 1) return mkConst(0, w);
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkZExt(mkTrunc(a, s), w); }
      if (isC(b) && b->val && w <= 64 && (uint64_t)(~a->kz & (uint64_t)M) < (uint64_t)b->val) return a;
      if (isC(b) && w <= 64 && b->val) {
        uint64_t mx = (~a->kz & (uint64_t)M) | (uint64_t)b->val; unsigned l = 64 - __builtin_clzll(mx | 1);
        if (l < w) return mkZExt(mkBin(Op::URem, mkTrunc(a, l), mkConst(b->val, l)), w);
      }
      if (isC(b) && w <= 64 && b->val) {
        uint64_t c = (uint64_t)b->val, q = (~a->kz & (uint64_t)M) / c;
        if (q <= 4) { E r = a; for (uint64_t k = 1; k <= q; k++) r = mkIte(mkCmp(Op::Ult, a, mkConst(k * c, w)), r, mkBin(Op::Sub, a, mkConst(k * c, w))); return r; }
      }
      break;
    case Op::SDiv: case Op::SRem:
      if (w <= 64 && (a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return mkBin(op == Op::SDiv ? Op::UDiv : Op::URem, a, b);
      break;
    case Op::And:
      if (a == b) return a;
      if (isC(b)) {
        if (!b->val) return b;
        if (b->val == M) return a;
        if (w <= 64) {
          uint64_t live = ~a->kz & (uint64_t)M;
          if ((live & ~(uint64_t)b->val) == 0) return a;
          if ((live & (uint64_t)b->val) == 0) return mkConst(0, w);
        }
        if ((b->val & (b->val + 1)) == 0) { unsigned s = 0; while ((b->val >> s) & 1) s++; return mkZExt(mkTrunc(a, s), w); }
        if (a->op == Op::And && isC(a->b)) return mkBin(Op::And, a->a, mkConst(a->b->val & b->val, w));
        if (a->op == Op::ZExt) return mkZExt(mkBin(Op::And, a->a, mkConst(b->val, a->a->w)), w);
        // contiguous mask:  ((a >> lo) & m) << lo
        { unsigned lo = 0; while (!((b->val >> lo) & 1)) lo++; u128 t = b->val >> lo; if (lo && (t & (t + 1)) == 0) { unsigned n = 0; while ((t >> n) & 1) n++; 
            E mid = mkExtract(a, lo, n); E r = mkConcat(mid, mkConst(0, lo)); return mkZExt(r, w); } }
      }
      if (w == 1) { if (a == mkNot(b)) return mkBool(false); 
        if (b->op == Op::And && (b->a == a || b->b == a)) return b; if (a->op == Op::And && (a->a == b || a->b == b)) return a;
      }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkZExt(mkBin(op, a->a, b->a), w);
      break;
    case Op::Or:
      if (a == b) return a;
      if (isC(b)) {
        if (!b->val) return a;
        if (b->val == M) return b;
        if (a->op == Op::Or && isC(a->b)) return mkBin(Op::Or, a->a, mkConst(a->b->val | b->val, w));
      }
      if (w == 1 && a == mkNot(b)) return mkBool(true);
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkZExt(mkBin(op, a->a, b->a), w);
      // disjoint or  ->  concat:  zext(lo) | concat(hi,0)
      if (w > 1 && w <= 64 && !isC(b)) {
        for (int k = 0; k < 2; k++) {
          E x = k ? a : b, y = k ? b : a;  // x high part, y low part
          uint64_t lx = ~x->kz & (uint64_t)M, ly = ~y->kz & (uint64_t)M;
          if (!lx || !ly) continue;
          unsigned tz = __builtin_ctzll(lx), top = 64 - __builtin_clzll(ly);
          if (tz >= top && tz < w) return mkConcat(mkExtract(x, tz, w - tz), mkExtract(y, 0, tz));
        }
      }
      break;
    case Op::Xor:
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (!b->val) return a;
        if (w == 1) return mkNot(a);
        if (a->op == Op::Xor && isC(a->b)) return mkBin(Op::Xor, a->a, mkConst(a->b->val ^ b->val, w));
      }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkZExt(mkBin(op, a->a, b->a), w);
      if (w == 1 && a->op == Op::Xor && isTrue(a->b)) return mkNot(mkBin(Op::Xor, a->a, b));
      if (w == 1 && b->op == Op::Xor && isTrue(b->b)) return mkNot(mkBin(Op::Xor, a, b->a));
      break;
    case Op::Shl:
      if (isC(b)) {
        if (!b->val) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      if (isC(a) && !a->val) return a;
      break;
    case Op::LShr:
      if (isC(b)) {
        if (!b->val) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (isC(a) && !a->val) return a;
      break;
    case Op::AShr:
      if (isC(b)) {
        if (!b->val) return a;
        unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    default: break;
  }
  return intern(op, w, a, b, 0, 0, 0);
}

static bool iteConst(E e) { return e->op == Op::Ite && (isC(e->b) || isC(e->c)); }

E mkCmp(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) { bool ok; return mkBool(foldBin(op, a->val, b->val, w, &ok) != 0); }
  if (w > 1 && (isTab(a) || isTab(b))) if (E t = tabulate(op, a, b, 1)) return t;
  if (op == Op::Eq) {
    if (a == b) return mkBool(true);
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (w <= 64 && ((a->kz & b->ko) || (a->ko & b->kz))) return mkBool(false);
    if (w == 1) {
      if (isC(b)) return b->val ? a : mkNot(a);
      return mkNot(mkBin(Op::Xor, a, b));
    }
    if (isC(b)) {
      switch (a->op) {
        case Op::ZExt: return (b->val >> a->a->w) ? mkBool(false) : mkCmp(Op::Eq, a->a, mkConst(b->val, a->a->w));
        case Op::SExt: { E t = mkConst(b->val, a->a->w); if (mkSExt(t, w) != b) return mkBool(false); return mkCmp(Op::Eq, a->a, t); }
        case Op::Add: if (isC(a->b)) return mkCmp(Op::Eq, a->a, mkConst(b->val - a->b->val, w)); break;
        case Op::Sub: if (isC(a->a)) return mkCmp(Op::Eq, a->b, mkConst(a->a->val - b->val, w)); if (!b->val) return mkCmp(Op::Eq, a->a, a->b); break;
        case Op::Xor: if (isC(a->b)) return mkCmp(Op::Eq, a->a, mkConst(a->b->val ^ b->val, w)); if (!b->val) return mkCmp(Op::Eq, a->a, a->b); break;
        case Op::Ite:
          if (isC(a->b) && isC(a->c)) { bool t = a->b->val == b->val, f = a->c->val == b->val; return t ? (f ? mkBool(true) : a->a) : (f ? mkNot(a->a) : mkBool(false)); }
          if (isC(a->b) ) { E r = mkCmp(Op::Eq, a->c, b); return a->b == b ? mkBin(Op::Or, a->a, r) : mkBin(Op::And, mkNot(a->a), r); }
          if (isC(a->c) ) { E r = mkCmp(Op::Eq, a->b, b); return a->c == b ? mkBin(Op::Or, mkNot(a->a), r) : mkBin(Op::And, a->a, r); }
          break;
        case Op::Concat: {
          E l = mkCmp(Op::Eq, a->b, mkConst(b->val, a->b->w)); if (isFalse(l)) return l;
          E h = mkCmp(Op::Eq, a->a, mkConst(b->val >> a->b->w, a->a->w)); if (isFalse(h)) return h;
          return mkBin(Op::And, h, l); }
        default: break;
      }
    } else {
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkCmp(Op::Eq, a->a, b->a);
      if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkCmp(Op::Eq, a->a, b->a);
      if (a->op == Op::Concat && b->op == Op::Concat && a->b->w == b->b->w) return mkBin(Op::And, mkCmp(Op::Eq, a->a, b->a), mkCmp(Op::Eq, a->b, b->b));
      if (a->op == Op::Add && b->op == Op::Add && isC(a->b) && isC(b->b)) return mkCmp(Op::Eq, mkBin(Op::Add, a->a, mkConst(a->b->val - b->b->val, w)), b->a);
      if (a->op == Op::Add && (a->a == b || a->b == b)) return mkCmp(Op::Eq, a->a == b ? a->b : a->a, mkConst(0, w));
      if (b->op == Op::Add && (b->a == a || b->b == a)) return mkCmp(Op::Eq, b->a == a ? b->b : b->a, mkConst(0, w));
    }
    return intern(Op::Eq, 1, a, b, 0, 0, 0);
  }
  if (a == b) return mkBool(op == Op::Ule || op == Op::Sle);
  if (op == Op::Slt || op == Op::Sle) {
    if (w <= 64) {
      bool za = a->kz >> (w - 1) & 1, zb = b->kz >> (w - 1) & 1, na = a->ko >> (w - 1) & 1, nb = b->ko >> (w - 1) & 1;
      if ((za && zb) || (na && nb)) return mkCmp(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
      if (na && zb) return mkBool(true);
      if (za && nb) return mkBool(false);
    }
    if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkCmp(op, a->a, b->a);
    if (a->op == Op::SExt && isC(b)) { E t = mkConst(b->val, a->a->w); if (mkSExt(t, w) == b) return mkCmp(op, a->a, t); return mkBool(sext128(b->val, w) > 0); }
    if (b->op == Op::SExt && isC(a)) { E t = mkConst(a->val, b->a->w); if (mkSExt(t, w) == a) return mkCmp(op, t, b->a); return mkBool(sext128(a->val, w) < 0); }
    // x <s 0  ->  sign bit
    if (op == Op::Slt && isC(b) && !b->val) return mkExtract(a, w - 1, 1);
    if (op == Op::Slt && isC(a) && a->val == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
    if (op == Op::Sle && isC(b) && b->val == maskw(w)) return mkExtract(a, w - 1, 1);
    if (op == Op::Sle && isC(a) && !a->val) return mkNot(mkExtract(b, w - 1, 1));
  } else if (w <= 64) {
    uint64_t M = mask64(w);
    uint64_t amin = a->ko, amax = ~a->kz & M, bmin = b->ko, bmax = ~b->kz & M;
    if (op == Op::Ult) { if (amax < bmin) return mkBool(true); if (amin >= bmax) return mkBool(false); }
    else { if (amax <= bmin) return mkBool(true); if (amin > bmax) return mkBool(false); }
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkCmp(op, a->a, b->a);
    if (a->op == Op::ZExt && isC(b) && b->val <= maskw(a->a->w)) return mkCmp(op, a->a, mkConst(b->val, a->a->w));
    if (b->op == Op::ZExt && isC(a) && a->val <= maskw(b->a->w)) return mkCmp(op, mkConst(a->val, b->a->w), b->a);
    if (op == Op::Ult && isC(b) && b->val == 1) return mkCmp(Op::Eq, a, mkConst(0, w));
    if (op == Op::Ule && isC(b) && b->val == 0) return mkCmp(Op::Eq, a, b);
    if (op == Op::Ult && isC(a) && a->val == 0) return mkNot(mkCmp(Op::Eq, b, a));
    if (op == Op::Ule && isC(a) && a->val == 1) return mkNot(mkCmp(Op::Eq, b, mkConst(0, w)));
    if (op == Op::Ule && isC(b) && b->val < M) return mkCmp(Op::Ult, a, mkConst(b->val + 1, w));
    if (op == Op::Ult && isC(a) && a->val < M && false) return mkCmp(Op::Ule, mkConst(a->val + 1, w), b);
  }
  // push through ite-of-constants
  if (iteConst(a) && isC(b) && isC(a->b) && isC(a->c)) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->c, b));
  if (iteConst(b) && isC(a) && isC(b->b) && isC(b->c)) return mkIte(b->a, mkCmp(op, a, b->b), mkCmp(op, a, b->c));
  return intern(op, 1, a, b, 0, 0, 0);
}

E mkFp(Op op, E a, E b, unsigned w) {
  if (isC(a) && (!b || isC(b)) && a->w <= 64) return mkConst(foldFp(op, (uint64_t)a->val, b ? (uint64_t)b->val : 0, a->w, w), w);
  return intern(op, w, a, b, 0, 0, 0);
}

// ---- evaluation
static std::vector<uint32_t> g_stamp; static std::vector<u128> g_memo; static uint32_t g_gen = 1;
void evalNewGeneration() { if (++g_gen == 0) { std::fill(g_stamp.begin(), g_stamp.end(), 0); g_gen = 1; } }
static u128 ev(E e, const Model& m) {
  if (e->op == Op::Const) return e->val;
  if (e->op == Op::Var) return (u128)m.get(e->aux) & maskw(e->w);
  if (g_stamp[e->id] == g_gen) return g_memo[e->id];
  u128 r = 0; bool ok;
  switch (e->op) {
    case Op::Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case Op::ZExt: r = ev(e->a, m); break;
    case Op::SExt: r = (u128)sext128(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case Op::Extract: r = (ev(e->a, m) >> e->aux) & maskw(e->w); break;
    case Op::Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case Op::And: r = ev(e->a, m); if (r) r &= ev(e->b, m); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno:
    case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FExt: case Op::FTrunc: case Op::FSqrt:
      r = foldFp(e->op, (uint64_t)ev(e->a, m), e->b ? (uint64_t)ev(e->b, m) : 0, e->a->w, e->w); break;
    default: r = foldBin(e->op, ev(e->a, m), ev(e->b, m), e->a->w, &ok);
  }
  g_stamp[e->id] = g_gen; g_memo[e->id] = r; return r;
}
u128 evalExpr(E e, const Model& m) {
  if (g_stamp.size() < g_count) { g_stamp.resize(g_count + g_count / 2 + 1024, 0); g_memo.resize(g_stamp.size()); }
  return ev(e, m);
}

std::string exprStr(E e, int d) {
  static const char* n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","<u","<=u","<s","<=s","ite","zext","sext","ext","cat","fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","ftosi","ftoui","sitof","uitof","fext","ftrunc","fsqrt"};
  if (e->op == Op::Const) { char b[64]; snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)e->val, e->w); return b; }
  if (e->op == Op::Var) return g_vars[e->aux].name + "#" + std::to_string(e->aux);
  if (d == 0) return "...";
  std::string s = std::string("(") + n[(int)e->op];
  if (e->op == Op::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  if (e->op == Op::ZExt || e->op == Op::SExt) s += std::to_string(e->w);
  for (E k : {e->a, e->b, e->c}) if (k) s += " " + exprStr(k, d - 1);
  return s + ")";
}
void collectVars(E e, std::vector<E>& out) { (void)e; (void)out; }
