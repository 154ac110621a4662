// lsx expression layer: hash-consed bit-vector (and IEEE float) expressions.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Ite, ZExt, SExt, Extract, Concat,
  // floating point (operands are IEEE bit patterns, width 32 or 64)
  FAdd, FSub, FMul, FDiv, FOeq, FOlt, FOle, FUno,
  FToSI, FToUI, SIToF, UIToF, FExt, FTrunc, FSqrt
};

struct VarSet { std::vector<uint32_t> v; uint64_t bloom = 0; };

struct Expr {
  Op op; uint16_t w; uint32_t id; uint32_t aux;     // aux: Extract low bit / Var id
  Expr *a = nullptr, *b = nullptr, *c = nullptr;
  u128 val = 0;                                     // Const
  uint64_t kz = 0, ko = 0;                          // known zero / one bits (w<=64)
  const VarSet* vars = nullptr;
  uint64_t hash = 0;
};
typedef Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= mask64(w); return (int64_t)((v ^ m) - m); }
inline i128 sext128(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

struct VarInfo { std::string name; unsigned w; bool uninit; };
extern std::vector<VarInfo> g_vars;

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool uninit = false);
E mkBin(Op op, E a, E b);
E mkCmp(Op op, E a, E b);          // Eq Ult Ule Slt Sle
E mkIte(E c, E t, E f);
E mkNot(E a);                      // width 1
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkTrunc(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkFp(Op op, E a, E b, unsigned w);
inline E mkBool(bool b) { return mkConst(b, 1); }
inline bool isC(E e) { return e->op == Op::Const; }
inline bool isTrue(E e) { return isC(e) && e->val; }
inline bool isFalse(E e) { return isC(e) && !e->val; }
size_t numExprs();

u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool* ok);
uint64_t foldFp(Op op, uint64_t a, uint64_t b, unsigned srcw, unsigned w);

struct Model {                      // assignment, default 0
  std::vector<uint64_t> v;
  uint64_t get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
  void set(uint32_t id, uint64_t x) { if (id >= v.size()) v.resize(id + 1, 0); v[id] = x; }
};
typedef std::shared_ptr<const Model> ModelP;
u128 evalExpr(E e, const Model& m);
void evalNewGeneration();            // invalidate the eval memo (call when switching models)
std::string exprStr(E e, int depth = 6);
void collectVars(E e, std::vector<E>& out);
