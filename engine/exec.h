#pragma once
#include "decode.h"
#include <atomic>
#include <sys/mman.h>

struct Options {
  std::string entry, out = "."; int workers = 8; double timeLimit = 600; uint64_t maxSteps = 30000000; int maxPreempt = -1; int maxViol = 20;
  int spinLimit = 60; bool verbose = false; std::string replay; int maxDepth = 2000; std::vector<std::string> known; bool stopOnViol = false; uint64_t memLimitMB = 3000;
};
extern Options opt;

struct Shared {                                    // across forked workers
  std::atomic<int> active, stop, timedOut, incomplete;
  std::atomic<uint64_t> paths, steps, forks, queries, z3calls, cacheHits, modelHits, unknowns, sat, unsat, z3us, asserts, assertsSymbolic, viols, killed, dropped, reach, unin, covered, schedPts, maxq;
  std::atomic<int> violSlots;
  std::atomic<uint64_t> violHash[256]; std::atomic<int> violCnt[256];
  std::atomic<uint32_t> reachBits[64]; char reachNames[64][64]; std::atomic<int> nreach;
  std::atomic<int> incReason[16];
  uint8_t cov[];
};
extern Shared* SH;
extern llvm::Module* M; extern const llvm::DataLayout* DL;
extern std::vector<DFunc*> g_funcs;
extern std::unordered_map<uint64_t, DFunc*> g_funcByAddr;
extern std::unordered_map<std::string, DFunc*> g_funcByName;
extern std::unordered_map<const llvm::GlobalVariable*, uint64_t> g_gvAddr;
extern std::unordered_map<uint32_t, const llvm::GlobalVariable*> g_gvById;
extern std::unordered_map<const llvm::GlobalVariable*, uint32_t> g_tlsGv;
constexpr uint64_t OBJ_OFF = 4096;
inline uint64_t baseOf(uint32_t id) { return ((uint64_t)id << 24) + OBJ_OFF; }
void loadModule(const std::string& path, State& init);
void decode(DFunc* f);
unsigned countLeaves(llvm::Type* t, std::vector<Leaf>* out = nullptr, uint32_t off = 0);
uint64_t constAddr(const llvm::Constant* c);
bool constScalar(const llvm::Constant* c, u128& out);
int builtinId(const std::string& name);
void explore(State* init);
std::string locStr(const llvm::Instruction* I);
