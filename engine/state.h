// lsx machine state: memory objects (copy on write), threads, frames.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Instructions.h>
#include <deque>
#include <map>
#include <set>

struct V { E e; uint64_t c; };                   // e==null: concrete value c
inline V vc(uint64_t c) { return V{nullptr, c}; }

struct Obj {
  int rc = 0; uint32_t id = 0; uint64_t size = 0;
  uint8_t kind = 0;                              // 0 global 1 heap 2 stack 3 func 4 external
  bool ro = false, shared = false; uint8_t owner = 0; uint8_t akind = 0;
  std::vector<uint8_t> data, st; std::vector<E> sym;   // st: 0 concrete 1 symbolic 2 uninit
  const void* site = nullptr;
};
enum { K_GLOBAL, K_HEAP, K_STACK, K_FUNC, K_EXT };

struct Chunk { int rc = 1; Obj* o[64]; Chunk() { memset(o, 0, sizeof o); } };
extern Obj FREED_HEAP, FREED_STACK;
inline void oref(Obj* o) { if (o && o != &FREED_HEAP && o != &FREED_STACK) o->rc++; }
inline void ounref(Obj* o) { if (o && o != &FREED_HEAP && o != &FREED_STACK && --o->rc == 0) delete o; }
struct ObjTable {
  std::vector<Chunk*> c;
  ObjTable() {}
  ObjTable(const ObjTable& t) : c(t.c) { for (auto x : c) if (x) x->rc++; }
  ObjTable& operator=(const ObjTable&) = delete;
  ~ObjTable() { for (auto x : c) drop(x); }
  static void drop(Chunk* x) { if (x && --x->rc == 0) { for (auto o : x->o) ounref(o); delete x; } }
  Obj* get(uint32_t id) const { uint32_t k = id >> 6; if (k >= c.size() || !c[k]) return nullptr; return c[k]->o[id & 63]; }
  Chunk* wchunk(uint32_t k) {
    if (k >= c.size()) c.resize(k + 1, nullptr);
    if (!c[k]) c[k] = new Chunk;
    else if (c[k]->rc > 1) { Chunk* n = new Chunk; for (int i = 0; i < 64; i++) { n->o[i] = c[k]->o[i]; oref(n->o[i]); } c[k]->rc--; c[k] = n; }
    return c[k];
  }
  void set(uint32_t id, Obj* o) { Chunk* k = wchunk(id >> 6); Obj*& s = k->o[id & 63]; oref(o); ounref(s); s = o; }
  Obj* writable(uint32_t id) {
    Chunk* k = wchunk(id >> 6); Obj*& s = k->o[id & 63];
    if (s->rc > 1) { Obj* n = new Obj(*s); n->rc = 1; s->rc--; s = n; }
    return s;
  }
};

struct DFunc;
struct Frame {
  DFunc* fn; int pc = 0; std::vector<V> regs; std::vector<uint32_t> allocas;
  int retDst = -1; int retN = 0; int normalEdge = -1, unwindEdge = -1;   // in the caller (when called by invoke)
  bool isInvoke = false; uint8_t special = 0; uint64_t sp1 = 0;          // special: 1 = exception dtor frame
  std::vector<V> varargs; std::vector<uint16_t> vaw;
};
struct ExcObj { uint64_t addr, ti, dtor; int handlers; bool rethrown; uint64_t adjusted; };
struct Thread {
  std::vector<Frame> fr; bool done = false;
  // blocking: waits until memory[addr,size] != / == val
  bool blocked = false; uint64_t baddr = 0, bval = 0; uint8_t bsize = 0, bmode = 0; bool btimed = false; bool timedOut = false;
  std::vector<ExcObj> caught; int uncaught = 0; uint64_t pendingExc = 0;
  std::map<uint32_t, uint64_t> tls;
};
struct InputRec { std::string name; std::vector<V> bytes; };
typedef std::shared_ptr<const InputRec> InputP;
struct SchedEv { uint64_t count; uint32_t target; uint8_t kind; };
struct State {
  ObjTable mem; uint32_t nextId = 0;
  std::vector<Thread> th; uint32_t cur = 0;
  std::vector<E> pc; ModelP model;
  std::vector<InputP> inputs; std::vector<SchedEv> sched; uint64_t schedCount = 0; int preempts = 0;
  std::map<uint64_t, ExcObj> excs;
  uint64_t steps = 0; int liveHeap = 0; int liveNew = 0; int forks = 0; uint32_t nuninit = 0, nvar = 0, nschedVar = 0; bool nosched = false;
  int uninitUsed = 0;
  uint64_t hangCheck = 0; uint32_t spun = 0;
};
