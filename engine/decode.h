// Pre-decoded form of LLVM functions.
#pragma once
#include "state.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/IntrinsicInst.h>

enum DOp : uint16_t {
  D_BIN, D_CMP, D_FBIN, D_FCMP, D_FNEG, D_CAST, D_LOAD, D_STORE, D_GEP, D_ALLOCA, D_BR, D_CONDBR, D_SWITCH, D_SELECT,
  D_CALL, D_RET, D_UNREACHABLE, D_COPY, D_INSERT, D_LANDINGPAD, D_RESUME, D_CMPXCHG, D_RMW, D_FENCE, D_NOP, D_UNSUPPORTED, D_SCALAR, D_VAARG
};
struct Edge { int target; std::vector<std::pair<int, int>> copies; };
struct Leaf { uint16_t w; uint32_t off; };            // width in bits, byte offset in memory
struct GepTerm { int opnd; int64_t scale; uint16_t w; };
struct DInst {
  uint16_t op; uint16_t sub = 0; uint16_t w = 0, w2 = 0; int dst = -1; int a = 0, b = 0, c = 0; int n = 1;
  const llvm::Instruction* src = nullptr; uint32_t gid = 0; int64_t imm = 0;
  std::vector<int> args; std::vector<uint16_t> aw; std::vector<Leaf> leaves; std::vector<GepTerm> terms;
  std::vector<u128> cases; std::vector<int> edges;       // edges: indices into DFunc::edges
  DFunc* callee = nullptr; int builtin = -1; bool invoke = false; bool cleanup = false;
  std::vector<std::pair<int, std::vector<uint64_t>>> clauses;   // 0 catch / 1 filter
};
struct DFunc {
  const llvm::Function* f = nullptr; std::string name; bool decoded = false; int nregs = 0; uint64_t addr = 0; bool inRepo = false;
  std::vector<DInst> insts; std::vector<V> pool; std::vector<Edge> edges; std::vector<int> argBase; std::vector<int> argN; int builtin = -1; bool isDecl = false;
  uint32_t gidBase = 0; int retN = 0; bool covered = false;
};
