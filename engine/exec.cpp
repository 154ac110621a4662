// The symbolic interpreter: forking path exploration over the decoded IR.
#include "exec.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <chrono>
#include <algorithm>
#include <cmath>
#include <cstdarg>
using namespace llvm;

Options opt; Shared* SH;
static std::vector<State*> work;
static std::chrono::steady_clock::time_point t_start;
static bool isRoot = true;
static int procId = 0, violSeq = 0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t_start).count(); }

enum Res { R_NEXT, R_JUMPED, R_DEAD, R_RETRY };       // result of executing one instruction
// R_NEXT: advance pc;  R_JUMPED: pc already set;  R_DEAD: path finished

struct Builtin { const char* name; int id; };
enum {
  B_NONE = -1, B_NEW = 1, B_NEWARR, B_NEW_NT, B_DELETE, B_DELARR, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP,
  B_ABORT, B_EXIT, B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_CXA_GETPTR, B_RESUME, B_TERMINATE, B_DYNCAST, B_PUREVIRT, B_UNCAUGHT, B_UNCAUGHTS,
  B_GUARD_ACQ, B_GUARD_REL, B_GUARD_ABORT, B_ATEXIT, B_NOOP0, B_NOOPV, B_BADCAST, B_CXA_CURTYPE, B_UNEXPECTED, B_ASSERTFAIL,
  B_LSX_SYM, B_LSX_BYTES, B_LSX_ASSUME, B_LSX_ASSERT, B_LSX_FAIL, B_LSX_REACH, B_LSX_CONC, B_LSX_LIVE, B_LSX_PRINT, B_LSX_THREAD, B_LSX_SELF, B_LSX_BLOCK, B_LSX_YIELD, B_LSX_SCHED, B_LSX_RANGE, B_LSX_NOSCHED, B_LSX_ASSERTK, B_LSX_HANG, B_LSX_ITE, B_LSX_STOP, B_LSX_ISENGINE, B_LSX_PREEMPT, B_LSX_TLS
};
static const Builtin BT[] = {
  {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEW_NT}, {"_ZnamRKSt9nothrow_t", B_NEW_NT}, {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR}, {"_ZdlPvRKSt9nothrow_t", B_DELETE}, {"_ZdaPvRKSt9nothrow_t", B_DELARR},
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
  {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_get_exception_ptr", B_CXA_GETPTR}, {"_Unwind_Resume", B_RESUME},
  {"_ZSt9terminatev", B_TERMINATE}, {"__dynamic_cast", B_DYNCAST}, {"__cxa_pure_virtual", B_PUREVIRT}, {"_ZSt18uncaught_exceptionv", B_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", B_UNCAUGHTS}, {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_GUARD_ABORT}, {"__cxa_atexit", B_ATEXIT}, {"__cxa_thread_atexit", B_ATEXIT}, {"atexit", B_ATEXIT},
  {"puts", B_NOOP0}, {"printf", B_NOOP0}, {"fprintf", B_NOOP0}, {"fwrite", B_NOOP0}, {"fputs", B_NOOP0}, {"fflush", B_NOOP0}, {"putchar", B_NOOP0}, {"perror", B_NOOP0}, {"__cxa_bad_cast", B_BADCAST}, {"__cxa_current_exception_type", B_CXA_CURTYPE}, {"__cxa_call_unexpected", B_UNEXPECTED}, {"__assert_fail", B_ASSERTFAIL}, {"__cxa_bad_typeid", B_BADCAST}, 
  {"lsx_sym", B_LSX_SYM}, {"lsx_bytes", B_LSX_BYTES}, {"lsx_assume", B_LSX_ASSUME}, {"lsx_assert", B_LSX_ASSERT}, {"lsx_fail", B_LSX_FAIL}, {"lsx_reach", B_LSX_REACH}, {"lsx_concretize", B_LSX_CONC}, {"lsx_live_heap", B_LSX_LIVE}, {"lsx_print", B_LSX_PRINT}, {"lsx_thread_create", B_LSX_THREAD}, {"lsx_self", B_LSX_SELF}, {"lsx_block", B_LSX_BLOCK}, {"lsx_yield", B_LSX_YIELD}, {"lsx_sched_point", B_LSX_SCHED}, {"lsx_range", B_LSX_RANGE}, {"lsx_nosched", B_LSX_NOSCHED}, {"lsx_assert_known", B_LSX_ASSERTK}, {"lsx_ite", B_LSX_ITE}, {"lsx_stop_path", B_LSX_STOP}, {"lsx_is_engine", B_LSX_ISENGINE}, {"lsx_preempt_bound", B_LSX_PREEMPT}, {"lsx_tls", B_LSX_TLS},
};
int builtinId(const std::string& n) {
  static std::unordered_map<std::string, int> m;
  if (m.empty()) for (auto& b : BT) m[b.name] = b.id;
  auto it = m.find(n); return it == m.end() ? -1 : it->second;
}

// ------------------------------------------------------------------ values
static inline E ex(V v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline V mkV(E e) { if (isC(e) && e->w <= 64) return vc((uint64_t)e->val); return V{e, 0}; }
static inline V getO(const Frame& f, int idx, int k = 0) { return idx >= 0 ? f.regs[idx + k] : f.fn->pool[~idx + k]; }

static bool inPc(const State& s, E e) { for (E x : s.pc) if (x == e) return true; return false; }
static void addPc(State& s, E c) {
  if (isC(c)) return;
  if (c->op == Op::And && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; }
  if (!inPc(s, c)) s.pc.push_back(c);
}
static void inc(int reason) { SH->incomplete++; SH->incReason[reason]++; }
enum { INC_UNKNOWN = 0, INC_STEPS, INC_TIME, INC_UNSUP, INC_ALLOC, INC_DEPTH, INC_MEM, INC_EXTERN };

static Sat feasible(State& s, E c, ModelP* m) {
  if (isTrue(c)) { *m = s.model; return Sat::Yes; }
  if (isFalse(c)) return Sat::No;
  if (inPc(s, c)) { *m = s.model; return Sat::Yes; }
  if (inPc(s, mkNot(c))) return Sat::No;
  Sat r = checkSat(s.pc, c, s.model, m);
  return r;
}
// the n-th variable of a path: the same one in all paths which make a variable of this name and width there
// (paths are independent, so that a variable can serve any number of them; keeps models and expressions small)
static E pathVar(State& s, const std::string& name, unsigned w, bool uninit = false) {
  static std::unordered_map<std::string, E> g; E& e = g[std::to_string(s.nvar++) + (uninit ? "?" : "#") + std::to_string(w) + name]; if (!e) e = mkVar(name, w, uninit); return e;
}
static State* cloneState(State& s) { State* n = new State(s); n->forks++; SH->forks++; return n; }
static void pushWork(State* s) { work.push_back(s); }

// ------------------------------------------------------------------ reporting
static std::string stackStr(State& s) {
  std::string r; auto& fr = s.th[s.cur].fr; int n = 0;
  for (int i = (int)fr.size() - 1; i >= 0 && n < 12; i--, n++) {
    auto& f = fr[i]; const Instruction* I = f.pc < (int)f.fn->insts.size() ? f.fn->insts[f.pc].src : nullptr;
    r += (n ? " < " : "") + f.fn->name + "@" + locStr(I);
  }
  return r;
}
static std::string curLoc(State& s) {
  auto& fr = s.th[s.cur].fr; 
  for (int i = (int)fr.size() - 1; i >= 0; i--) { auto& f = fr[i]; if (f.pc < (int)f.fn->insts.size()) { std::string l = locStr(f.fn->insts[f.pc].src); if (l.find("lightspeed") != std::string::npos) return l; } }
  if (fr.empty()) return "?";
  return locStr(fr.back().fn->insts[fr.back().pc].src);
}
static void dumpCase(State& s, const ModelP& m, const std::string& kind, const std::string& label, const std::string& loc) {
  char path[4096]; snprintf(path, sizeof path, "%s/viol-%d-%d.case", opt.out.c_str(), (int)getpid(), violSeq++);
  FILE* f = fopen(path, "w"); if (!f) return;
  fprintf(f, "KIND %s\nLABEL %s\nLOC %s\nSTACK %s\n", kind.c_str(), label.c_str(), loc.c_str(), stackStr(s).c_str());
  int un = 0; for (E c : s.pc) for (uint32_t v : c->vars->v) if (g_vars[v].uninit) un = 1;
  fprintf(f, "UNINIT %d\n", un);
  for (auto& ip : s.inputs) {
    fprintf(f, "I %s %zu ", ip->name.empty() ? "-" : ip->name.c_str(), ip->bytes.size());
    for (auto& b : ip->bytes) { evalNewGeneration(); fprintf(f, "%02x", (unsigned)(b.e ? (uint64_t)evalExpr(b.e, *m) : b.c) & 255); }
    fprintf(f, "\n");
  }
  for (auto& e : s.sched) fprintf(f, "S %llu %u\n", (unsigned long long)e.count, e.target);
  fclose(f);
}
static void report(State& s, const ModelP& m, const std::string& kind, const std::string& label, const std::string& locOverride = "") {
  std::string loc = locOverride.empty() ? curLoc(s) : locOverride;
  uint64_t h = std::hash<std::string>()(kind + "|" + label + "|" + loc) | 1;
  for (int i = 0; i < 256; i++) {
    uint64_t cur = SH->violHash[i].load();
    if (cur == 0) { uint64_t z = 0; if (!SH->violHash[i].compare_exchange_strong(z, h)) cur = z; else cur = h; }
    if (cur == h) { if (SH->violCnt[i].fetch_add(1) >= 3) { SH->viols++; return; } break; }
  }
  SH->viols++;
  dumpCase(s, m, kind, label, loc);
  if (opt.verbose) fprintf(stderr, "lsx: %s: %s at %s\n   %s\n", kind.c_str(), label.c_str(), loc.c_str(), stackStr(s).c_str());
  if (opt.stopOnViol || (int)SH->viols.load() > 20000) SH->stop = 1;
}

// ------------------------------------------------------------------ memory
static Obj* newObj(State& s, uint64_t size, uint8_t kind, bool uninit) {
  Obj* o = new Obj; o->id = s.nextId++; o->size = size; o->kind = kind; o->owner = s.cur;
  o->data.assign(size, 0);
  if (uninit && size) { o->st.assign(size, 2); o->sym.assign(size, nullptr); }
  s.mem.set(o->id, o); return o;
}
static inline E byteOf(State& s, Obj* o, uint64_t i) {           // may materialise uninit bytes
  if (o->st.empty() || o->st[i] == 0) return mkConst(o->data[i], 8);
  if (o->st[i] == 1) return o->sym[i];
  o = s.mem.writable(o->id);
  char nm[64]; snprintf(nm, sizeof nm, "uninit_%u_%llu", o->id, (unsigned long long)i);
  E v = pathVar(s, nm, 8, true); s.nuninit++; o->st[i] = 1; o->sym[i] = v; return v;
}
// the bytes of a stored multi-byte value, so that loading them together gives back the very same expression
static std::unordered_map<uint64_t, std::pair<std::vector<E>, E>> g_whole;
static uint64_t wholeKey(const E* b, unsigned n) { uint64_t h = n; for (unsigned i = 0; i < n; i++) h = (h ^ b[i]->id) * 0x9E3779B97F4A7C15ull + (h >> 29); return h; }
static V loadAt(State& s, Obj* o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool conc = o->st.empty();
  if (!conc) { conc = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i]) { conc = false; break; } }
  if (conc && n <= 8) { uint64_t v = 0; memcpy(&v, &o->data[off], n); return vc(v & mask64(w)); }
  uint32_t id = o->id; E e = nullptr;
  E bs[32]; 
  if (n > 1 && n <= 16) {
    for (unsigned i = 0; i < n; i++) bs[i] = byteOf(s, s.mem.get(id), off + i);
    auto it = g_whole.find(wholeKey(bs, n));
    if (it != g_whole.end() && it->second.first.size() == n && std::equal(bs, bs + n, it->second.first.begin())) e = it->second.second;
    else for (unsigned i = 0; i < n; i++) e = e ? mkConcat(bs[i], e) : bs[i];
  } else for (unsigned i = 0; i < n; i++) { E b = byteOf(s, s.mem.get(id), off + i); e = e ? mkConcat(b, e) : b; }
  if (e->w > w) e = mkTrunc(e, w);
  return mkV(e);
}
static void putByte(Obj* o, uint64_t i, E b) {
  if (isC(b)) { o->data[i] = (uint8_t)b->val; if (!o->st.empty()) o->st[i] = 0; return; }
  if (o->st.empty()) { o->st.assign(o->size, 0); o->sym.assign(o->size, nullptr); }
  o->st[i] = 1; o->sym[i] = b;
}
static void escape(State& s, uint64_t val);
static void storeAt(State& s, uint32_t id, uint64_t off, V v, unsigned w) {
  Obj* o = s.mem.writable(id); unsigned n = (w + 7) / 8;
  if (!v.e && n <= 8) {
    memcpy(&o->data[off], &v.c, n); if (!o->st.empty()) memset(&o->st[off], 0, n);
    if (w == 64 && o->shared && s.th.size() > 1) escape(s, v.c);
    return;
  }
  E e = v.e ? v.e : mkConst(v.c, w); if (e->w < n * 8) e = mkZExt(e, n * 8);
  E bs[32];
  for (unsigned i = 0; i < n; i++) { E b = mkExtract(e, i * 8, 8); if (i < 32) bs[i] = b; putByte(o, off + i, b); }
  if (n > 1 && n <= 16) g_whole[wholeKey(bs, n)] = {std::vector<E>(bs, bs + n), e};
}
// mark objects reachable from a published pointer as shared
static void escape(State& s, uint64_t val) {
  std::vector<uint64_t> st{val};
  while (!st.empty()) {
    uint64_t v = st.back(); st.pop_back(); uint32_t id = v >> 24; if (id < 256 || id >= s.nextId) continue;
    Obj* o = s.mem.get(id); if (!o || o == &FREED_HEAP || o == &FREED_STACK || o->shared || o->kind == K_FUNC || o->ro) continue;
    o = s.mem.writable(id); o->shared = true;
    if (o->size <= 65536) for (uint64_t i = 0; i + 8 <= o->size; i += 8) {
      bool c = true; if (!o->st.empty()) for (int k = 0; k < 8; k++) if (o->st[i + k]) c = false;
      if (c) { uint64_t x; memcpy(&x, &o->data[i], 8); st.push_back(x); }
    }
  }
}
struct Loc { uint32_t id; bool symbolic; uint64_t off; E offE; };
enum MRes { M_OK, M_DEAD, M_RETRY };

static void memErr(State& s, const ModelP& m, uint64_t addr, uint64_t n, const char* what) {
  uint32_t id = addr >> 24; Obj* o = id < s.nextId ? s.mem.get(id) : nullptr; char b[256]; std::string kind = "memory";
  if (addr < 4096 * 16) snprintf(b, sizeof b, "null-dereference %s", what);
  else if (o == &FREED_HEAP) snprintf(b, sizeof b, "use-after-free %s", what);
  else if (o == &FREED_STACK) snprintf(b, sizeof b, "use-after-return %s", what);
  else if (!o) snprintf(b, sizeof b, "wild-pointer %s", what);
  else if (o->ro) snprintf(b, sizeof b, "write-to-constant %s", what);
  else snprintf(b, sizeof b, "out-of-bounds %s (%s)", what, o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global");
  (void)n; report(s, m, kind, b);
}
static inline bool validObj(Obj* o) { return o && o != &FREED_HEAP && o != &FREED_STACK; }

// Resolve an access of n bytes at address a.
static MRes resolve(State& s, V a, uint64_t n, const char* what, bool write, Loc& L) {
  if (!a.e) {
    uint32_t id = a.c >> 24; uint64_t off = (a.c & 0xffffff) - OBJ_OFF;
    Obj* o = id < s.nextId ? s.mem.get(id) : nullptr;
    if (!validObj(o) || off > o->size || n > o->size - off || (write && o->ro && n)) { if (n == 0) { L = {id, false, 0, nullptr}; return M_OK; } memErr(s, s.model, a.c, n, what); return M_DEAD; }
    L = {id, false, off, nullptr}; return M_OK;
  }
  evalNewGeneration();
  uint64_t v = (uint64_t)evalExpr(a.e, *s.model);
  uint32_t id = v >> 24; uint64_t off = (v & 0xffffff) - OBJ_OFF;
  Obj* o = id < s.nextId ? s.mem.get(id) : nullptr;
  if (!validObj(o) || off > o->size || n > o->size - off || (write && o->ro)) {
    // the current model itself is a witness of an invalid access
    memErr(s, s.model, v, n, what);
    // continue with addresses inside some other region, if any: exclude this window
    E ne;
    if (validObj(o) && o->size >= n && !(write && o->ro)) {
      E inb = mkCmp(Op::Ule, mkBin(Op::Sub, a.e, mkConst(baseOf(id), 64)), mkConst(o->size - n, 64));
      ModelP m; if (feasible(s, inb, &m) == Sat::Yes) { addPc(s, inb); s.model = m; return M_RETRY; }
    }
    (void)ne; return M_DEAD;
  }
  E rel = mkBin(Op::Sub, a.e, mkConst(baseOf(id), 64));
  E inb = mkCmp(Op::Ule, rel, mkConst(o->size - n, 64));
  if (!isTrue(inb) && !inPc(s, inb)) {
    ModelP m; E out = mkNot(inb); Sat r = feasible(s, out, &m);
    if (r == Sat::Unknown) inc(INC_UNKNOWN);
    if (r == Sat::Yes) { State* c = cloneState(s); addPc(*c, out); c->model = m; pushWork(c); }
    if (r != Sat::No) addPc(s, inb);
  }
  if (isC(rel)) { L = {id, false, (uint64_t)rel->val, nullptr}; return M_OK; }
  L = {id, true, 0, rel}; return M_OK;
}
// pick one concrete value for e, forking for the others
static uint64_t concretize(State& s, V v, unsigned w) {
  if (!v.e) return v.c;
  evalNewGeneration();
  uint64_t x = (uint64_t)evalExpr(v.e, *s.model);
  E eq = mkCmp(Op::Eq, v.e, mkConst(x, w));
  if (!inPc(s, eq)) {
    ModelP m; Sat r = feasible(s, mkNot(eq), &m);
    if (r == Sat::Unknown) inc(INC_UNKNOWN);
    if (r == Sat::Yes) { State* c = cloneState(s); addPc(*c, mkNot(eq)); c->model = m; pushWork(c); }
    addPc(s, eq);
  }
  return x;
}
static std::vector<uint64_t> candidates(E off, uint64_t maxOff, size_t limit, bool& over) {
  std::vector<uint64_t> r; over = false; uint64_t kz = off->kz, ko = off->ko;
  uint64_t free_ = ~kz & ~ko;
  // enumerate sub-masks of the unknown bits, ascending
  uint64_t sub = 0;
  for (;;) {
    uint64_t o = ko | sub; if (o <= maxOff) { r.push_back(o); if (r.size() > limit) { over = true; return r; } }
    sub = (sub - free_) & free_; if (sub == 0 || (ko | sub) > maxOff) break;
  }
  return r;
}
static E muxRec(E off, const std::vector<std::pair<uint64_t, E>>& v, size_t lo, size_t hi, int bit) {
  bool same = true; for (size_t i = lo + 1; i < hi; i++) if (v[i].second != v[lo].second) { same = false; break; }
  if (same) return v[lo].second;
  for (; bit >= 0; bit--) {
    if (((v[lo].first ^ v[hi - 1].first) >> bit) & 1) break;
  }
  size_t mid = lo; while (!((v[mid].first >> bit) & 1)) mid++;
  return mkIte(mkExtract(off, bit, 1), muxRec(off, v, mid, hi, bit - 1), muxRec(off, v, lo, mid, bit - 1));
}
static std::unordered_map<uint64_t, E> g_muxMemo;
static MRes memLoad(State& s, V addr, unsigned w, V& out, const char* what = "read") {
  Loc L; unsigned n = (w + 7) / 8;
  MRes r = resolve(s, addr, n, what, false, L); if (r != M_OK) return r;
  if (!L.symbolic) { out = loadAt(s, s.mem.get(L.id), L.off, w); return M_OK; }
  Obj* o = s.mem.get(L.id); bool over;
  auto c = candidates(L.offE, o->size - n, 4096, over);
  if (over) { uint64_t off = concretize(s, V{L.offE, 0}, 64); out = loadAt(s, s.mem.get(L.id), off, w); return M_OK; }
  uint64_t key = 0; bool memo = o->ro && o->st.empty();
  if (memo) { key = ((uint64_t)L.id << 40) ^ ((uint64_t)L.offE->id << 8) ^ w; auto it = g_muxMemo.find(key); if (it != g_muxMemo.end()) { out = mkV(it->second); return M_OK; } }
  std::vector<std::pair<uint64_t, E>> v; v.reserve(c.size());
  for (auto off : c) v.push_back({off, ex(loadAt(s, s.mem.get(L.id), off, w), w)});
  if (v.empty()) return M_DEAD;
  E e = muxRec(L.offE, v, 0, v.size(), 63);
  if (memo) g_muxMemo[key] = e;
  out = mkV(e); return M_OK;
}
static MRes memStore(State& s, V addr, V val, unsigned w, const char* what = "write") {
  Loc L; unsigned n = (w + 7) / 8;
  MRes r = resolve(s, addr, n, what, true, L); if (r != M_OK) return r;
  if (!L.symbolic) { storeAt(s, L.id, L.off, val, w); return M_OK; }
  Obj* o = s.mem.get(L.id); bool over;
  auto c = candidates(L.offE, o->size - n, 1024, over);
  if (over) { uint64_t off = concretize(s, V{L.offE, 0}, 64); storeAt(s, L.id, off, val, w); return M_OK; }
  E e = ex(val, w); if (e->w < n * 8) e = mkZExt(e, n * 8);
  std::map<uint64_t, E> nb;
  for (auto off : c) {
    E at = mkCmp(Op::Eq, L.offE, mkConst(off, 64));
    for (unsigned i = 0; i < n; i++) {
      uint64_t p = off + i; auto it = nb.find(p); E old = it != nb.end() ? it->second : byteOf(s, s.mem.get(L.id), p);
      nb[p] = mkIte(at, mkExtract(e, i * 8, 8), old);
    }
  }
  o = s.mem.writable(L.id);
  for (auto& p : nb) putByte(o, p.first, p.second);
  return M_OK;
}
static MRes memCopy(State& s, V d, V sr, uint64_t n) {
  if (!n) return M_OK;
  Loc S, D; MRes r;
  if ((r = resolve(s, sr, n, "read", false, S)) != M_OK) return r;
  if (S.symbolic) { concretize(s, sr, 64); return M_RETRY; }
  if ((r = resolve(s, d, n, "write", true, D)) != M_OK) return r;
  if (D.symbolic) { concretize(s, d, 64); return M_RETRY; }
  Obj* so = s.mem.get(S.id);
  if (so->st.empty() || [&] { for (uint64_t i = 0; i < n; i++) if (so->st[S.off + i]) return false; return true; }()) {
    std::vector<uint8_t> t(so->data.begin() + S.off, so->data.begin() + S.off + n);
    Obj* o = s.mem.writable(D.id); memcpy(&o->data[D.off], t.data(), n); if (!o->st.empty()) memset(&o->st[D.off], 0, n);
  } else {
    std::vector<uint8_t> t(so->data.begin() + S.off, so->data.begin() + S.off + n), st(so->st.begin() + S.off, so->st.begin() + S.off + n);
    std::vector<E> sy(so->sym.begin() + S.off, so->sym.begin() + S.off + n);
    Obj* o = s.mem.writable(D.id);
    if (o->st.empty()) { o->st.assign(o->size, 0); o->sym.assign(o->size, nullptr); }
    for (uint64_t i = 0; i < n; i++) { o->data[D.off + i] = t[i]; o->st[D.off + i] = st[i]; o->sym[D.off + i] = sy[i]; }
  }
  Obj* o = s.mem.get(D.id);
  if (o->shared && s.th.size() > 1) for (uint64_t i = 0; i + 8 <= n; i += 8) { V v = (o->st.empty() || !memchr(&o->st[D.off + i], 1, 8)) ? vc(*(uint64_t*)&o->data[D.off + i]) : vc(0); if (!v.e) escape(s, v.c); }
  return M_OK;
}
static bool readConc(State& s, uint64_t addr, unsigned n, uint64_t& out) {
  uint32_t id = addr >> 24; uint64_t off = (addr & 0xffffff) - OBJ_OFF; Obj* o = id < s.nextId ? s.mem.get(id) : nullptr;
  if (!validObj(o) || off > o->size || n > o->size - off) return false;
  V v = loadAt(s, o, off, n * 8); if (v.e) { evalNewGeneration(); out = (uint64_t)evalExpr(v.e, *s.model); return true; } out = v.c; return true;
}
static std::string readStr(State& s, uint64_t addr) { std::string r; uint64_t c; while (r.size() < 300 && readConc(s, addr, 1, c) && c) { r += (char)c; addr++; } return r; }

// ------------------------------------------------------------------ RTTI
static std::string symOf(uint64_t addr, uint64_t* off = nullptr) {
  auto it = g_gvById.find(addr >> 24); if (it == g_gvById.end()) return "";
  if (off) *off = (addr & 0xffffff) - OBJ_OFF; return it->second->getName().str();
}
struct BaseInfo { uint64_t ti; int64_t off; bool virt; };
static std::vector<BaseInfo> basesOf(State& s, uint64_t ti) {
  std::vector<BaseInfo> r; uint64_t vp; 
  std::string nm = symOf(ti);
  auto gv = g_gvById.find(ti >> 24); 
  if (gv == g_gvById.end()) return r;
  if (gv->second->isDeclaration()) {    // libstdc++ class: known hierarchy
    auto has = [&](const char* b) { GlobalVariable* g = M->getNamedGlobal(b); if (g) r.push_back({g_gvAddr[g], 0, false}); };
    if (nm != "_ZTISt9exception" && nm.compare(0, 6, "_ZTISt") == 0) {
      if (nm == "_ZTISt12out_of_range" || nm == "_ZTISt12length_error" || nm == "_ZTISt16invalid_argument") has("_ZTISt11logic_error");
      if (nm == "_ZTISt14overflow_error" || nm == "_ZTISt11range_error") has("_ZTISt13runtime_error");
      has("_ZTISt9exception");
    }
    return r;
  }
  if (!readConc(s, ti, 8, vp)) return r;
  std::string k = symOf(vp);
  if (k.find("20__si_class_type_info") != std::string::npos) { uint64_t b; readConc(s, ti + 16, 8, b); r.push_back({b, 0, false}); }
  else if (k.find("21__vmi_class_type_info") != std::string::npos) {
    uint64_t n; readConc(s, ti + 20, 4, n);
    for (uint64_t i = 0; i < n; i++) { uint64_t b, f; readConc(s, ti + 24 + i * 16, 8, b); readConc(s, ti + 32 + i * 16, 8, f); if (!(f & 2)) continue; r.push_back({b, (int64_t)f >> 8, (f & 1) != 0}); }
  }
  return r;
}
static void subobjects(State& s, uint64_t ti, uint64_t addr, std::vector<std::pair<uint64_t, uint64_t>>& out, int depth = 0) {
  if (depth > 30) return;
  for (auto& p : out) if (p.first == ti && p.second == addr) return;
  out.push_back({ti, addr});
  for (auto& b : basesOf(s, ti)) {
    uint64_t a = addr + b.off;
    if (b.virt) { uint64_t vp, vo; if (!readConc(s, addr, 8, vp) || !readConc(s, vp + b.off, 8, vo)) continue; a = addr + (int64_t)vo; }
    subobjects(s, b.ti, a, out, depth + 1);
  }
}
static bool canCatch(State& s, uint64_t thrown, uint64_t want, uint64_t obj, uint64_t& adj) {
  std::string a = symOf(thrown), b = symOf(want); bool ptr = a.compare(0, 5, "_ZTIP") == 0;
  if (ptr && want != 0) {        // pointer types: the handler gets the pointer itself; qualification and derived-to-base conversions
    uint64_t p, tf, wf, tp, wp; if (!readConc(s, obj, 8, p)) return false;
    if (want == thrown || a == b) { adj = p; return true; }
    if (b.compare(0, 5, "_ZTIP") != 0 || !readConc(s, thrown + 16, 4, tf) || !readConc(s, want + 16, 4, wf) || !readConc(s, thrown + 24, 8, tp) || !readConc(s, want + 24, 8, wp)) return false;
    if (!tp || !wp || ((tf & 3) & ~wf)) return false;
    std::string pb = symOf(wp); if (pb == "_ZTIv" || tp == wp || symOf(tp) == pb) { adj = p; return true; }
    if (!p) { adj = 0; return false; }
    std::vector<std::pair<uint64_t, uint64_t>> so; subobjects(s, tp, p, so);
    for (auto& q : so) if (q.first == wp) { adj = q.second; return true; }
    return false;
  }
  if (want == 0 || want == thrown) { adj = obj; return true; }
  if (!a.empty() && a == b) { adj = obj; return true; }
  std::vector<std::pair<uint64_t, uint64_t>> so; subobjects(s, thrown, obj, so);
  for (auto& p : so) if (p.first == want) { adj = p.second; return true; }
  return false;
}
static uint64_t selectorOf(uint64_t ti) { return ti == 0 ? 1 : 2 + (ti >> 24); }

// ------------------------------------------------------------------ frames
static void freeStackObj(State& s, uint32_t id) { s.mem.set(id, &FREED_STACK); }
static void popFrame(State& s) {
  auto& t = s.th[s.cur]; for (auto id : t.fr.back().allocas) freeStackObj(s, id); t.fr.pop_back();
}
static void cover(DInst& d) { uint8_t& b = SH->cov[d.gid]; if (!b) b = 1; }
static void takeEdge(Frame& f, int ei) {
  Edge& e = f.fn->edges[ei];
  if (!e.copies.empty()) {
    if (e.copies.size() == 1) f.regs[e.copies[0].first] = getO(f, e.copies[0].second);
    else {
      static thread_local std::vector<V> tmp; tmp.clear();
      for (auto& c : e.copies) tmp.push_back(getO(f, c.second));
      for (size_t i = 0; i < e.copies.size(); i++) f.regs[e.copies[i].first] = tmp[i];
    }
  }
  f.pc = e.target;
}
static Res pushCall(State& s, DFunc* fn, const std::vector<V>& args, DInst* ci, size_t fixedN = ~0ull) {
  decode(fn);
  auto& t = s.th[s.cur];
  if ((int)t.fr.size() >= opt.maxDepth) { report(s, s.model, "recursion", "call depth exceeds bound (stack overflow)"); return R_DEAD; }
  t.fr.emplace_back(); Frame& f = t.fr.back(); f.fn = fn; f.regs.assign(fn->nregs, vc(0)); f.pc = 0;
  size_t need = 0; for (int n : fn->argN) need += n;
  for (size_t i = 0; i < need && i < args.size(); i++) f.regs[i] = args[i];
  for (size_t i = need; i < args.size(); i++) { f.varargs.push_back(args[i]); f.vaw.push_back(ci && i < ci->aw.size() ? ci->aw[i] : 64); }
  fn->covered = true; (void)fixedN;
  if (ci) for (auto& bv : ci->terms) {           // byval copies
    uint32_t id = newObj(s, bv.scale, K_STACK, true)->id; 
    MRes r = memCopy(s, vc(baseOf(id)), args[bv.opnd], bv.scale); if (r != M_OK) return R_DEAD;
    Frame& ff = s.th[s.cur].fr.back(); ff.regs[bv.opnd] = vc(baseOf(id)); ff.allocas.push_back(id);
  }
  return R_JUMPED;
}
static Res schedule(State& s, bool curEnabled);
static Res threadDone(State& s);
static void finishPath(State& s) { (void)s; SH->paths++; }

static Res doReturn(State& s, const V* vals, int n) {
  auto& t = s.th[s.cur]; Frame& f = t.fr.back();
  uint8_t special = f.special; uint64_t sp1 = f.sp1;
  V tmp[16]; std::vector<V> big; const V* src;
  if (n <= 16) { for (int i = 0; i < n; i++) tmp[i] = vals[i]; src = tmp; } else { big.assign(vals, vals + n); src = big.data(); }
  popFrame(s);
  if (special == 1) { s.mem.set((uint32_t)(sp1 >> 24), &FREED_HEAP); s.excs.erase(sp1); }
  if (t.fr.empty()) return threadDone(s);
  Frame& c = t.fr.back(); DInst& ci = c.fn->insts[c.pc];
  if (special != 1) { if (ci.dst >= 0) for (int i = 0; i < n && i < ci.n; i++) c.regs[ci.dst + i] = src[i]; }
  if (ci.invoke) takeEdge(c, ci.edges[0]); else c.pc++;
  return R_JUMPED;
}
static Res unwind(State& s, uint64_t exc) {
  auto& t = s.th[s.cur];
  // phase 1: is there any handler at all?
  auto it = s.excs.find(exc); if (it == s.excs.end()) { report(s, s.model, "internal", "unwinding unknown exception"); return R_DEAD; }
  ExcObj& eo = it->second; uint64_t adj;
  bool found = false;
  for (int i = (int)t.fr.size() - 1; i >= 0 && !found; i--) {
    Frame& f = t.fr[i]; DInst& ci = f.fn->insts[f.pc];
    if (f.special == 1) break;
    if (!(ci.op == D_CALL && ci.invoke)) continue;
    DInst& lp = f.fn->insts[f.fn->edges[ci.edges[1]].target];
    for (auto& c : lp.clauses) {
      if (c.first == 0) { if (canCatch(s, eo.ti, c.second.empty() ? 0 : c.second[0], exc, adj)) { found = true; break; } }
      else { bool in = false; for (auto ti : c.second) if (canCatch(s, eo.ti, ti, exc, adj)) in = true; if (!in) { found = true; break; } }
    }
  }
  if (!found) { report(s, s.model, "uncaught", "uncaught exception " + symOf(eo.ti)); return R_DEAD; }
  while (!t.fr.empty()) {
    Frame& f = t.fr.back(); DInst& ci = f.fn->insts[f.pc];
    if (ci.op == D_CALL && ci.invoke) {
      DInst& lp = f.fn->insts[f.fn->edges[ci.edges[1]].target];
      uint64_t sel = 0; bool hit = false;
      for (auto& c : lp.clauses) {
        if (c.first == 0) { uint64_t ti = c.second.empty() ? 0 : c.second[0]; if (canCatch(s, eo.ti, ti, exc, adj)) { sel = selectorOf(ti); eo.adjusted = adj; hit = true; break; } }
        else { bool in = false; for (auto ti : c.second) if (canCatch(s, eo.ti, ti, exc, adj)) in = true; if (!in) { sel = (uint32_t)-1; hit = true; break; } }
      }
      if (hit || lp.cleanup) {
        takeEdge(f, ci.edges[1]); DInst& l2 = f.fn->insts[f.pc];
        if (l2.op != D_LANDINGPAD) { report(s, s.model, "internal", "no landingpad"); return R_DEAD; }
        cover(l2); f.regs[l2.dst] = vc(exc); f.regs[l2.dst + 1] = vc(sel); f.pc++;
        return R_JUMPED;
      }
    }
    popFrame(s);
  }
  report(s, s.model, "uncaught", "uncaught exception"); return R_DEAD;
}
static Res throwStd(State& s, const char* tiName) {
  GlobalVariable* g = M->getNamedGlobal(tiName);
  Obj* o = newObj(s, 16, K_HEAP, false); o->akind = 3; uint64_t a = baseOf(o->id);
  if (GlobalVariable* v = M->getNamedGlobal("_ZTVSt9bad_alloc")) storeAt(s, o->id, 0, vc(g_gvAddr[v] + 16), 64);
  s.excs[a] = ExcObj{a, g ? g_gvAddr[g] : 0xffffff000000ull, 0, 0, false, a}; s.th[s.cur].uncaught++;
  return unwind(s, a);
}

// ------------------------------------------------------------------ threads
static bool condHolds(State& s, Thread& t) {
  uint64_t v; if (!readConc(s, t.baddr, t.bsize, v)) return true;
  return t.bmode == 0 ? v != t.bval : v == t.bval;
}
static bool enabled(State& s, uint32_t i) { Thread& t = s.th[i]; if (t.done) return false; if (!t.blocked) return true; return condHolds(s, t) || t.btimed; }
static void resumeThread(State& s, uint32_t i) {       // make i current; complete a pending block
  s.cur = i; Thread& t = s.th[i];
  if (t.blocked) {
    bool ok = condHolds(s, t); t.blocked = false;
    Frame& f = t.fr.back(); DInst& ci = f.fn->insts[f.pc];
    if (ci.dst >= 0) f.regs[ci.dst] = vc(ok ? 1 : 0);
    if (ci.invoke) takeEdge(f, ci.edges[0]); else f.pc++;
  }
}
static E schedVar(State& s) { static std::vector<E> g; while (g.size() <= s.nschedVar) g.push_back(mkVar("sched", 8)); return g[s.nschedVar++]; }
// Choose the next thread among the enabled ones.  The choice is a fresh symbolic variable;
// one path per enabled value.
static Res chooseAmong(State& s, const std::vector<uint32_t>& opts, int preemptCur) {
  if (opts.size() == 1) {
    if (opts[0] != s.cur || s.th[s.cur].blocked) { s.sched.push_back({s.schedCount, opts[0], 0}); resumeThread(s, opts[0]); }
    return R_JUMPED;
  }
  SH->schedPts++;
  E v = schedVar(s);
  for (size_t k = opts.size(); k-- > 1;) {
    State* c = cloneState(s);
    addPc(*c, mkCmp(Op::Eq, v, mkConst(opts[k], 8))); auto m = std::make_shared<Model>(*c->model); m->set(v->aux, opts[k]); c->model = m;
    if (preemptCur >= 0 && (int)opts[k] != preemptCur) c->preempts++;
    if (opts[k] != c->cur || c->th[c->cur].blocked) { c->sched.push_back({c->schedCount, opts[k], 0}); resumeThread(*c, opts[k]); c->hangCheck = 0; }
    pushWork(c);
  }
  addPc(s, mkCmp(Op::Eq, v, mkConst(opts[0], 8))); auto m = std::make_shared<Model>(*s.model); m->set(v->aux, opts[0]); s.model = m;
  if (preemptCur >= 0 && (int)opts[0] != preemptCur) s.preempts++;
  if (opts[0] != s.cur || s.th[s.cur].blocked) { s.sched.push_back({s.schedCount, opts[0], 0}); resumeThread(s, opts[0]); s.hangCheck = 0; }
  return R_JUMPED;
}
// current thread cannot continue (blocked / done)
static Res schedule(State& s, bool) {
  std::vector<uint32_t> opts; bool allDone = true;
  for (uint32_t i = 0; i < s.th.size(); i++) { if (!s.th[i].done) allDone = false; if (enabled(s, i)) opts.push_back(i); }
  if (allDone) { finishPath(s); return R_DEAD; }
  if (opts.empty()) { report(s, s.model, "deadlock", "no thread can make progress", "deadlock"); return R_DEAD; }
  return chooseAmong(s, opts, -1);
}
static Res threadDone(State& s) {
  s.th[s.cur].done = true; s.schedCount++;
  if (s.cur == 0) { finishPath(s); return R_DEAD; }   // main finished: path ends
  return schedule(s, false);
}
static int g_preemptBound = 1 << 30;
static Res schedPoint(State& s, bool yield) {           // pc already advanced
  s.schedCount++;
  if (s.th.size() < 2 || s.nosched) return R_JUMPED;
  std::vector<uint32_t> others; for (uint32_t i = 0; i < s.th.size(); i++) if (i != s.cur && enabled(s, i)) others.push_back(i);
  if (others.empty()) return R_JUMPED;
  s.hangCheck++;
  if (yield) { s.hangCheck = 0; return chooseAmong(s, others, -1); }
  if ((int)s.hangCheck > opt.spinLimit) {   // a thread that spins gives way; fairly: not back to one that spins as well, until the others ran
    s.hangCheck = 0; s.spun |= 1u << s.cur; std::vector<uint32_t> o; for (uint32_t i : others) if (!(s.spun >> i & 1)) o.push_back(i);
    if (o.empty()) { s.spun = 0; o = others; }
    return chooseAmong(s, o, -1);
  }
  int bound = opt.maxPreempt >= 0 ? opt.maxPreempt : g_preemptBound;
  if (s.preempts >= bound) return R_JUMPED;
  std::vector<uint32_t> opts{s.cur}; opts.insert(opts.end(), others.begin(), others.end());
  return chooseAmong(s, opts, s.cur);
}

// ------------------------------------------------------------------ builtins
static void setRet(State& s, DInst& d, V v) { if (d.dst >= 0) s.th[s.cur].fr.back().regs[d.dst] = v; }
static Res doAlloc(State& s, DInst& d, V size, int akind, bool nothrow, bool zero) {
  uint64_t n;
  const uint64_t LIM = 12u << 20;
  if (size.e) {
    E big = mkCmp(Op::Ult, mkConst(LIM, 64), size.e); ModelP m; Sat r = feasible(s, big, &m);
    if (r == Sat::Yes) {
      E small = mkNot(big); ModelP m2;
      if (feasible(s, small, &m2) == Sat::Yes) { State* c = cloneState(s); addPc(*c, small); c->model = m2; pushWork(c); }
      addPc(s, big); s.model = m; if (nothrow) { setRet(s, d, vc(0)); return R_NEXT; } return throwStd(s, "_ZTISt9bad_alloc");
    }
    n = concretize(s, size, 64);
  } else n = size.c;
  if (n > LIM) { if (n < (1ull << 33)) inc(INC_ALLOC); if (nothrow) { setRet(s, d, vc(0)); return R_NEXT; } return throwStd(s, "_ZTISt9bad_alloc"); }
  Obj* o = newObj(s, n, K_HEAP, !zero); o->akind = akind; s.liveHeap++; o->site = d.src;
  setRet(s, d, vc(baseOf(o->id))); return R_NEXT;
}
static Res doFree(State& s, DInst& d, V p, int akind) {
  (void)d; (void)akind;
  uint64_t a = concretize(s, p, 64); if (!a) return R_NEXT;
  uint32_t id = a >> 24; uint64_t off = (a & 0xffffff) - OBJ_OFF; Obj* o = id < s.nextId ? s.mem.get(id) : nullptr;
  if (o == &FREED_HEAP) { report(s, s.model, "memory", "double free"); return R_DEAD; }
  if (!validObj(o) || off != 0 || o->kind != K_HEAP) { report(s, s.model, "memory", "invalid free"); return R_DEAD; }
  s.mem.set(id, &FREED_HEAP); s.liveHeap--; return R_NEXT;
}
static void reachLabel(const std::string& l) {
  int n = SH->nreach.load(); for (int i = 0; i < n; i++) if (!strncmp(SH->reachNames[i], l.c_str(), 63)) { SH->reachBits[i]++; return; }
  int i = SH->nreach.fetch_add(1); if (i >= 64) { SH->nreach = 64; return; } strncpy(SH->reachNames[i], l.c_str(), 63); SH->reachBits[i]++;
}
static InputP mkInput(const std::string& n, std::vector<V>&& b) { auto p = std::make_shared<InputRec>(); p->name = n; p->bytes = std::move(b); return p; }

static Res doAssert(State& s, V c, const std::string& label, V* known, const std::string& kid) {
  SH->asserts++;
  E ce = ex(c, 32); E ok = mkNot(mkCmp(Op::Eq, ce, mkConst(0, 32)));
  if (isTrue(ok)) return R_NEXT;
  SH->assertsSymbolic++;
  E bad = mkNot(ok); ModelP m;
  if (known) {
    E kc = mkNot(mkCmp(Op::Eq, ex(*known, 32), mkConst(0, 32)));
    bool listed = std::find(opt.known.begin(), opt.known.end(), kid) != opt.known.end();
    if (listed) {
      E both = mkBin(Op::And, bad, kc);
      Sat r = feasible(s, both, &m); if (r == Sat::Unknown) inc(INC_UNKNOWN);
      if (r == Sat::Yes) report(s, m, "known", kid);
      bad = mkBin(Op::And, bad, mkNot(kc));
    }
  }
  Sat r = feasible(s, bad, &m);
  if (r == Sat::Unknown) inc(INC_UNKNOWN);
  if (r == Sat::Yes) report(s, m, "assert", label);
  if (isFalse(ok)) { finishPath(s); return R_DEAD; }
  Sat q = feasible(s, ok, &m);
  if (q != Sat::Yes) { finishPath(s); return R_DEAD; }
  addPc(s, ok); s.model = m; return R_NEXT;
}
static Res symBranchAssume(State& s, E c) {
  ModelP m; Sat r = feasible(s, c, &m);
  if (r == Sat::Unknown) { inc(INC_UNKNOWN); return R_DEAD; }
  if (r == Sat::No) { SH->killed++; return R_DEAD; }
  addPc(s, c); s.model = m; return R_NEXT;
}
static Res mres(MRes r) { return r == M_DEAD ? R_DEAD : R_RETRY; }

static Res callBuiltin(State& s, DInst& d, int id, std::vector<V>& a) {
  Thread& t = s.th[s.cur];
  switch (id) {
    case B_NEW: return doAlloc(s, d, a[0], 1, false, false);
    case B_NEWARR: return doAlloc(s, d, a[0], 2, false, false);
    case B_NEW_NT: return doAlloc(s, d, a[0], 1, true, false);
    case B_MALLOC: return doAlloc(s, d, a[0], 0, true, false);
    case B_CALLOC: return doAlloc(s, d, mkV(mkBin(Op::Mul, ex(a[0], 64), ex(a[1], 64))), 0, true, true);
    case B_REALLOC: {
      uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
      Res r = doAlloc(s, d, vc(n), 0, true, false); if (r != R_NEXT || !p) return r;
      uint64_t np = s.th[s.cur].fr.back().regs[d.dst].c; if (!np) return R_NEXT;
      Obj* o = s.mem.get(p >> 24); if (!validObj(o)) { report(s, s.model, "memory", "realloc of invalid pointer"); return R_DEAD; }
      if (memCopy(s, vc(np), vc(p), std::min<uint64_t>(n, o->size)) != M_OK) return R_DEAD;
      return doFree(s, d, vc(p), 0); }
    case B_FREE: return doFree(s, d, a[0], 0);
    case B_DELETE: return doFree(s, d, a[0], 1);
    case B_DELARR: return doFree(s, d, a[0], 2);
    case B_MEMCPY: {
      uint64_t n = concretize(s, a[2], 64); MRes r = memCopy(s, a[0], a[1], n); if (r != M_OK) return mres(r);
      setRet(s, d, a[0]); return R_NEXT; }
    case B_MEMSET: {
      uint64_t n = concretize(s, a[2], 64); if (n) {
        Loc L; MRes r = resolve(s, a[0], n, "write", true, L); if (r != M_OK) return mres(r);
        if (L.symbolic) { concretize(s, a[0], 64); return R_RETRY; }
        Obj* o = s.mem.writable(L.id); E b = mkTrunc(ex(a[1], a[1].e ? a[1].e->w : 32), 8);
        if (isC(b)) { memset(&o->data[L.off], (int)b->val, n); if (!o->st.empty()) memset(&o->st[L.off], 0, n); }
        else for (uint64_t i = 0; i < n; i++) putByte(o, L.off + i, b);
      }
      setRet(s, d, a[0]); return R_NEXT; }
    case B_MEMCMP: {
      uint64_t n = concretize(s, a[2], 64); E r = mkConst(0, 32);
      for (uint64_t i = n; i-- > 0;) {
        V x, y; MRes q; if ((q = memLoad(s, mkV(mkBin(Op::Add, ex(a[0], 64), mkConst(i, 64))), 8, x)) != M_OK) return mres(q);
        if ((q = memLoad(s, mkV(mkBin(Op::Add, ex(a[1], 64), mkConst(i, 64))), 8, y)) != M_OK) return mres(q);
        E xe = ex(x, 8), ye = ex(y, 8);
        r = mkIte(mkCmp(Op::Eq, xe, ye), r, mkBin(Op::Sub, mkZExt(xe, 32), mkZExt(ye, 32)));
      }
      setRet(s, d, mkV(r)); return R_NEXT; }
    case B_ABORT: report(s, s.model, "abort", "abort() called"); return R_DEAD;
    case B_ASSERTFAIL: report(s, s.model, "abort", "assert failed"); return R_DEAD;
    case B_EXIT: finishPath(s); return R_DEAD;
    case B_TERMINATE: report(s, s.model, "terminate", "std::terminate called"); return R_DEAD;
    case B_UNEXPECTED: report(s, s.model, "terminate", "unexpected exception (violates exception specification)"); return R_DEAD;
    case B_PUREVIRT: report(s, s.model, "abort", "pure virtual call"); return R_DEAD;
    case B_BADCAST: return throwStd(s, "_ZTISt8bad_cast");
    case B_CXA_ALLOC: { Obj* o = newObj(s, concretize(s, a[0], 64), K_HEAP, true); o->akind = 3; setRet(s, d, vc(baseOf(o->id))); return R_NEXT; }
    case B_CXA_FREE: s.mem.set((uint32_t)(a[0].c >> 24), &FREED_HEAP); return R_NEXT;
    case B_CXA_THROW: { uint64_t e = a[0].c; s.excs[e] = ExcObj{e, a[1].c, a[2].c, 0, false, e}; t.uncaught++; return unwind(s, e); }
    case B_CXA_BEGIN: {
      auto it = s.excs.find(a[0].c); if (it == s.excs.end()) { report(s, s.model, "internal", "begin_catch of unknown exception"); return R_DEAD; }
      it->second.handlers++; if (it->second.rethrown) it->second.rethrown = false; t.uncaught--; t.caught.push_back(it->second); setRet(s, d, vc(it->second.adjusted)); return R_NEXT; }
    case B_CXA_GETPTR: { auto it = s.excs.find(a[0].c); setRet(s, d, vc(it == s.excs.end() ? a[0].c : it->second.adjusted)); return R_NEXT; }
    case B_CXA_END: {
      if (t.caught.empty()) return R_NEXT;
      uint64_t e = t.caught.back().addr; t.caught.pop_back(); auto it = s.excs.find(e); if (it == s.excs.end()) return R_NEXT;
      ExcObj& eo = it->second; eo.handlers--;
      if (eo.handlers > 0 || eo.rethrown) return R_NEXT;
      if (!eo.dtor) { s.mem.set((uint32_t)(e >> 24), &FREED_HEAP); s.excs.erase(e); return R_NEXT; }
      DFunc* df = g_funcByAddr[eo.dtor]; 
      if (!df || df->isDecl) { s.mem.set((uint32_t)(e >> 24), &FREED_HEAP); s.excs.erase(e); return R_NEXT; }
      Res r = pushCall(s, df, {vc(e)}, nullptr); if (r == R_JUMPED) { Frame& f = s.th[s.cur].fr.back(); f.special = 1; f.sp1 = e; } return r; }
    case B_CXA_RETHROW: {
      if (t.caught.empty()) { report(s, s.model, "terminate", "rethrow without exception"); return R_DEAD; }
      uint64_t e = t.caught.back().addr; s.excs[e].rethrown = true; t.uncaught++; return unwind(s, e); }
    case B_RESUME: { uint64_t e = a[0].c; popFrame(s); return unwind(s, e); }
    case B_CXA_CURTYPE: setRet(s, d, vc(t.caught.empty() ? 0 : s.excs[t.caught.back().addr].ti)); return R_NEXT;
    case B_UNCAUGHT: setRet(s, d, vc(t.uncaught > 0)); return R_NEXT;
    case B_UNCAUGHTS: setRet(s, d, vc(t.uncaught)); return R_NEXT;
    case B_GUARD_ACQ: { uint64_t g; if (!readConc(s, a[0].c, 1, g)) return R_DEAD; setRet(s, d, vc(g == 0)); return R_NEXT; }
    case B_GUARD_REL: { V v = vc(1); memStore(s, a[0], v, 8); return R_NEXT; }
    case B_GUARD_ABORT: return R_NEXT;
    case B_ATEXIT: case B_NOOP0: setRet(s, d, vc(0)); return R_NEXT;
    case B_NOOPV: return R_NEXT;
    case B_DYNCAST: {
      uint64_t p = concretize(s, a[0], 64); if (!p) { setRet(s, d, vc(0)); return R_NEXT; }
      uint64_t vp, ott, ti; if (!readConc(s, p, 8, vp) || !readConc(s, vp - 16, 8, ott) || !readConc(s, vp - 8, 8, ti)) { report(s, s.model, "memory", "dynamic_cast on invalid object"); return R_DEAD; }
      uint64_t whole = p + (int64_t)ott; std::vector<std::pair<uint64_t, uint64_t>> so; subobjects(s, ti, whole, so);
      uint64_t res = 0; int cnt = 0; for (auto& x : so) if (x.first == a[2].c) { res = x.second; cnt++; }
      if (cnt > 1) { // prefer the one that contains the source subobject
        uint64_t best = 0; int bc = 0; for (auto& x : so) if (x.first == a[2].c) { std::vector<std::pair<uint64_t, uint64_t>> sub; subobjects(s, x.first, x.second, sub); for (auto& y : sub) if (y.first == a[1].c && y.second == p) { best = x.second; bc++; break; } }
        res = bc == 1 ? best : 0; }
      setRet(s, d, vc(res)); return R_NEXT; }
    // ---- harness interface
    case B_LSX_SYM: {   // uint64 lsx_sym(unsigned bits, const char* name)
      unsigned w = a[0].c; std::string n = readStr(s, a[1].c); E v = pathVar(s, n, w); std::vector<V> b; E z = mkZExt(v, 64);
      for (int i = 0; i < 8; i++) b.push_back(mkV(mkExtract(z, i * 8, 8)));
      s.inputs.push_back(mkInput(n, std::move(b))); setRet(s, d, mkV(z)); return R_NEXT; }
    case B_LSX_RANGE: { // uint64 lsx_range(lo, hi, name): lo <= v <= hi
      uint64_t lo = a[0].c, hi = a[1].c; std::string n = readStr(s, a[2].c); 
      if (a[0].e || a[1].e) { lo = concretize(s, a[0], 64); hi = concretize(s, a[1], 64); }
      if (lo > hi) return R_DEAD;
      if (lo == hi) { std::vector<V> b; for (int i = 0; i < 8; i++) b.push_back(vc((lo >> (8 * i)) & 255)); s.inputs.push_back(mkInput(n, std::move(b))); setRet(s, d, vc(lo)); return R_NEXT; }
      uint64_t span = hi - lo; unsigned w = 64 - __builtin_clzll(span | 1); E v = pathVar(s, n, w); E z = mkBin(Op::Add, mkZExt(v, 64), mkConst(lo, 64));
      if (w < 64 && span != mask64(w)) addPc(s, mkCmp(Op::Ule, v, mkConst(span, w)));
      else if (w == 64 && span != ~0ull) addPc(s, mkCmp(Op::Ule, v, mkConst(span, w)));
      std::vector<V> b; for (int i = 0; i < 8; i++) b.push_back(mkV(mkExtract(z, i * 8, 8)));
      s.inputs.push_back(mkInput(n, std::move(b))); setRet(s, d, mkV(z)); return R_NEXT; }
    case B_LSX_BYTES: { // lsx_bytes(void* p, size_t n, const char* name)
      uint64_t n = concretize(s, a[1], 64); std::string nm = readStr(s, a[2].c); std::vector<V> b;
      Loc L; MRes r = resolve(s, a[0], n, "write", true, L); if (r != M_OK) return mres(r);
      if (n) { Obj* o = s.mem.writable(L.id);
        for (uint64_t i = 0; i < n; i++) { E v = pathVar(s, nm + "[" + std::to_string(i) + "]", 8); putByte(o, L.off + i, v); b.push_back(V{v, 0}); } }
      s.inputs.push_back(mkInput(nm, std::move(b))); return R_NEXT; }
    case B_LSX_ASSUME: { E c = mkNot(mkCmp(Op::Eq, ex(a[0], 32), mkConst(0, 32))); return symBranchAssume(s, c); }
    case B_LSX_ASSERT: return doAssert(s, a[0], readStr(s, a[1].c), nullptr, "");
    case B_LSX_ASSERTK: return doAssert(s, a[0], readStr(s, a[1].c), &a[2], readStr(s, a[3].c));
    case B_LSX_FAIL: SH->asserts++; report(s, s.model, "assert", readStr(s, a[0].c)); finishPath(s); return R_DEAD;
    case B_LSX_STOP: finishPath(s); return R_DEAD;
    case B_LSX_ISENGINE: setRet(s, d, vc(1)); return R_NEXT;
    case B_LSX_REACH: reachLabel(readStr(s, a[0].c)); return R_NEXT;
    case B_LSX_CONC: setRet(s, d, vc(concretize(s, a[0], 64))); return R_NEXT;
    case B_LSX_ITE: { E c = mkNot(mkCmp(Op::Eq, ex(a[0], 32), mkConst(0, 32))); setRet(s, d, mkV(mkIte(c, ex(a[1], 64), ex(a[2], 64)))); return R_NEXT; }
    case B_LSX_LIVE: setRet(s, d, vc(s.liveHeap)); return R_NEXT;
    case B_LSX_PRINT: if (opt.verbose) { evalNewGeneration(); fprintf(stderr, "lsx_print %s = 0x%llx %s\n", readStr(s, a[0].c).c_str(), (unsigned long long)(a[1].e ? (uint64_t)evalExpr(a[1].e, *s.model) : a[1].c), a[1].e ? exprStr(a[1].e, 5).c_str() : ""); } return R_NEXT;
    case B_LSX_SELF: setRet(s, d, vc(s.cur)); return R_NEXT;
    case B_LSX_NOSCHED: s.nosched = a[0].c & 1; return R_NEXT;
    case B_LSX_TLS: return R_NEXT;   // thread-local variables are kept per thread by the executor itself
    case B_LSX_PREEMPT: g_preemptBound = a[0].c; return R_NEXT;
    case B_LSX_THREAD: {
      uint64_t fa = concretize(s, a[0], 64); DFunc* fn = g_funcByAddr[fa]; if (!fn || fn->isDecl) { report(s, s.model, "internal", "thread function"); return R_DEAD; }
      if (s.th.size() == 1) {   // everything that exists now may be shared
        for (uint32_t i = 256; i < s.nextId; i++) { Obj* o = s.mem.get(i); if (validObj(o) && !o->ro && o->kind != K_FUNC && !o->shared) s.mem.writable(i)->shared = true; }
      } else escape(s, a[1].e ? 0 : a[1].c);
      uint32_t id2 = s.th.size(), cur = s.cur; s.th.emplace_back(); s.cur = id2; Res r = pushCall(s, fn, {a[1]}, nullptr); s.cur = cur; if (r == R_DEAD) return r;
      setRet(s, d, vc(id2)); return R_NEXT; }
    case B_LSX_YIELD: case B_LSX_SCHED: {
      if (id == B_LSX_SCHED && s.th.size() > 1) {
        // lsx_sched_point(ptr, kind): kind 1 = atomic/volatile, 0 = plain access
        bool sharedAcc = true;
        if (!a.empty() && !a[0].e && a[0].c) { Obj* o = (a[0].c >> 24) < s.nextId ? s.mem.get(a[0].c >> 24) : nullptr; if (validObj(o)) { if (!o->shared && o->owner != s.cur && o->kind != K_FUNC) { escape(s, a[0].c); } sharedAcc = o->shared && !o->ro; } }
        if (!sharedAcc) { s.schedCount++; return R_NEXT; }
      }
      Frame& f = t.fr.back(); if (d.invoke) takeEdge(f, d.edges[0]); else f.pc++;
      return schedPoint(s, id == B_LSX_YIELD); }
    case B_LSX_BLOCK: { // int lsx_block(volatile void* p, size, uint64 val, mode, timed)
      t.baddr = a[0].c; t.bsize = a[1].c; t.bval = concretize(s, a[2], 64); t.bmode = a[3].c; t.btimed = a[4].c & 1; s.schedCount++;
      if (condHolds(s, t)) { setRet(s, d, vc(1)); return R_NEXT; }
      if (s.nosched) { report(s, s.model, "deadlock", "blocking inside a non-scheduled region"); return R_DEAD; }
      t.blocked = true; return schedule(s, false); }
  }
  return R_DEAD;
}

static Res callIntrinsic(State& s, DInst& d, std::vector<V>& a, bool& handled) {
  handled = true; const std::string& n = d.callee->name; auto id = d.callee->f->getIntrinsicID(); unsigned w = d.w;
  auto A = [&](int i, unsigned ww) { return ex(a[i], ww); };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t k = concretize(s, a[2], 64); MRes r = memCopy(s, a[0], a[1], k); return r == M_OK ? R_NEXT : mres(r); }
    case Intrinsic::memset: case Intrinsic::memset_inline: return callBuiltin(s, d, B_MEMSET, a);
    case Intrinsic::umin: setRet(s, d, mkV(mkIte(mkCmp(Op::Ult, A(0, w), A(1, w)), A(0, w), A(1, w)))); return R_NEXT;
    case Intrinsic::umax: setRet(s, d, mkV(mkIte(mkCmp(Op::Ult, A(0, w), A(1, w)), A(1, w), A(0, w)))); return R_NEXT;
    case Intrinsic::smin: setRet(s, d, mkV(mkIte(mkCmp(Op::Slt, A(0, w), A(1, w)), A(0, w), A(1, w)))); return R_NEXT;
    case Intrinsic::smax: setRet(s, d, mkV(mkIte(mkCmp(Op::Slt, A(0, w), A(1, w)), A(1, w), A(0, w)))); return R_NEXT;
    case Intrinsic::abs: setRet(s, d, mkV(mkIte(mkCmp(Op::Slt, A(0, w), mkConst(0, w)), mkBin(Op::Sub, mkConst(0, w), A(0, w)), A(0, w)))); return R_NEXT;
    case Intrinsic::bswap: { E x = A(0, w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } setRet(s, d, mkV(r)); return R_NEXT; }
    case Intrinsic::bitreverse: { E x = A(0, w), r = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } setRet(s, d, mkV(r)); return R_NEXT; }
    case Intrinsic::ctpop: { E x = A(0, w), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(x, i, 1), w)); setRet(s, d, mkV(r)); return R_NEXT; }
    case Intrinsic::ctlz: { E x = A(0, w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); setRet(s, d, mkV(r)); return R_NEXT; }
    case Intrinsic::cttz: { E x = A(0, w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); setRet(s, d, mkV(r)); return R_NEXT; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E sh = mkBin(Op::URem, A(2, w), mkConst(w, w)), x = A(0, w), y = A(1, w); E inv = mkBin(Op::Sub, mkConst(w, w), sh); E z = mkCmp(Op::Eq, sh, mkConst(0, w));
      E r = id == Intrinsic::fshl ? mkIte(z, x, mkBin(Op::Or, mkBin(Op::Shl, x, sh), mkBin(Op::LShr, y, inv))) : mkIte(z, y, mkBin(Op::Or, mkBin(Op::Shl, x, inv), mkBin(Op::LShr, y, sh)));
      setRet(s, d, mkV(r)); return R_NEXT; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned ww = d.aw[0]; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Op o = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Op::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Op::Sub : Op::Mul;
      unsigned W = o == Op::Mul ? 2 * ww : ww + 1; E x = A(0, ww), y = A(1, ww);
      E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W); E R = mkBin(o, X, Y), r = mkBin(o, x, y);
      E ov = mkNot(mkCmp(Op::Eq, R, sg ? mkSExt(r, W) : mkZExt(r, W)));
      Frame& f = s.th[s.cur].fr.back(); f.regs[d.dst] = mkV(r); f.regs[d.dst + 1] = mkV(ov); return R_NEXT; }
    case Intrinsic::uadd_sat: { E x = A(0, w), y = A(1, w), r = mkBin(Op::Add, x, y); setRet(s, d, mkV(mkIte(mkCmp(Op::Ult, r, x), mkConst(~(u128)0, w), r))); return R_NEXT; }
    case Intrinsic::usub_sat: { E x = A(0, w), y = A(1, w); setRet(s, d, mkV(mkIte(mkCmp(Op::Ult, x, y), mkConst(0, w), mkBin(Op::Sub, x, y)))); return R_NEXT; }
    case Intrinsic::expect: setRet(s, d, a[0]); return R_NEXT;
    case Intrinsic::invariant_start: setRet(s, d, vc(0)); return R_NEXT;
    case Intrinsic::invariant_end: return R_NEXT;
    case Intrinsic::is_constant: setRet(s, d, vc(0)); return R_NEXT;
    case Intrinsic::objectsize: setRet(s, d, vc(~0ull)); return R_NEXT;
    case Intrinsic::trap: case Intrinsic::debugtrap: report(s, s.model, "abort", "trap"); return R_DEAD;
    case Intrinsic::stacksave: setRet(s, d, vc(0)); return R_NEXT;
    case Intrinsic::eh_typeid_for: setRet(s, d, vc(selectorOf(a[0].c))); return R_NEXT;
    case Intrinsic::fabs: setRet(s, d, mkV(mkBin(Op::And, A(0, w), mkConst(mask64(w - 1), w)))); return R_NEXT;
    case Intrinsic::sqrt: setRet(s, d, mkV(mkFp(Op::FSqrt, A(0, w), nullptr, w))); return R_NEXT;
    case Intrinsic::fmuladd: setRet(s, d, mkV(mkFp(Op::FAdd, mkFp(Op::FMul, A(0, w), A(1, w), w), A(2, w), w))); return R_NEXT;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::log2: case Intrinsic::exp2: {
      if (w != 64) { inc(INC_UNSUP); return R_DEAD; }
      auto g = [&](int i) { uint64_t x = concretize(s, a[i], 64); double dd; memcpy(&dd, &x, 8); return dd; };
      double r = id == Intrinsic::floor ? floor(g(0)) : id == Intrinsic::ceil ? ceil(g(0)) : id == Intrinsic::trunc ? trunc(g(0)) : id == Intrinsic::round ? round(g(0)) : id == Intrinsic::pow ? pow(g(0), g(1)) : id == Intrinsic::exp ? exp(g(0)) : id == Intrinsic::exp2 ? exp2(g(0)) : id == Intrinsic::log ? log(g(0)) : id == Intrinsic::log10 ? log10(g(0)) : id == Intrinsic::log2 ? log2(g(0)) : rint(g(0));
      uint64_t x; memcpy(&x, &r, 8); setRet(s, d, vc(x)); return R_NEXT; }
    case Intrinsic::threadlocal_address: {
      uint64_t g = a[0].c; if (s.cur == 0) { setRet(s, d, a[0]); return R_NEXT; }
      auto& tl = s.th[s.cur].tls; auto it = tl.find(g >> 24);
      if (it == tl.end()) {
        Obj* src = nullptr; for (auto& p : g_tlsGv) if (p.second == g >> 24) src = s.mem.get(p.second); (void)src;
        const GlobalVariable* gv = g_gvById[g >> 24]; Obj* o = newObj(s, DL->getTypeAllocSize(gv->getValueType()), K_GLOBAL, false);
        if (gv->hasInitializer() && !gv->getInitializer()->isNullValue()) { u128 v; if (constScalar(gv->getInitializer(), v)) storeAt(s, o->id, 0, vc((uint64_t)v), o->size * 8 > 64 ? 64 : o->size * 8); }
        it = tl.emplace((uint32_t)(g >> 24), baseOf(o->id)).first;
      }
      setRet(s, d, vc(it->second)); return R_NEXT; }
    case Intrinsic::vastart: {
      // pack all varargs into one memory area used as overflow_arg_area; gp/fp offsets exhausted
      Frame& f = s.th[s.cur].fr.back(); Obj* o = newObj(s, f.varargs.size() * 8 + 8, K_STACK, false); uint32_t oid = o->id; f.allocas.push_back(oid);
      auto va = f.varargs; auto vw = f.vaw;
      for (size_t i = 0; i < va.size(); i++) storeAt(s, oid, i * 8, va[i], vw[i] ? vw[i] : 64);
      memStore(s, a[0], vc(48), 32); memStore(s, vc(a[0].c + 4), vc(304), 32); memStore(s, vc(a[0].c + 8), vc(baseOf(oid)), 64); memStore(s, vc(a[0].c + 16), vc(baseOf(oid)), 64);
      return R_NEXT; }
    case Intrinsic::vacopy: { MRes r = memCopy(s, a[0], a[1], 24); return r == M_OK ? R_NEXT : mres(r); }
    case Intrinsic::ptrmask: setRet(s, d, mkV(mkBin(Op::And, A(0, 64), A(1, 64)))); return R_NEXT;
    default: break;
  }
  (void)n; handled = false; return R_DEAD;
}

// math library functions, evaluated on concrete arguments (symbolic ones are concretised by forking)
static bool mathFn(State& s, DInst& d, const std::string& n, std::vector<V>& a) {
  typedef double (*F1)(double); typedef double (*F2)(double, double);
  static const std::map<std::string, F1> f1 = {{"floor", floor}, {"ceil", ceil}, {"log10", log10}, {"log", log}, {"exp", exp}, {"sqrt", sqrt}, {"sin", sin}, {"cos", cos}, {"trunc", trunc}, {"log2", log2}, {"fabs", fabs}, {"exp2", exp2}, {"round", round}};
  static const std::map<std::string, F2> f2 = {{"pow", pow}, {"fmod", fmod}, {"atan2", atan2}, {"fmin", fmin}, {"fmax", fmax}};
  auto g = [&](int i) { uint64_t x = concretize(s, a[i], 64); double dd; memcpy(&dd, &x, 8); return dd; };
  double r; auto i1 = f1.find(n); auto i2 = f2.find(n);
  if (i1 != f1.end()) r = i1->second(g(0)); else if (i2 != f2.end()) { double x = g(0); r = i2->second(x, g(1)); } 
  else if (n == "ldexp") { double x = g(0); r = ldexp(x, (int)concretize(s, a[1], 32)); } else return false;
  uint64_t x; memcpy(&x, &r, 8); setRet(s, d, vc(x)); return true;
}

static Res doCall(State& s, DInst& d) {
  Frame& f = s.th[s.cur].fr.back();
  DFunc* fn = d.callee;
  std::vector<V> a; a.reserve(d.args.size());
  for (int x : d.args) a.push_back(getO(f, x));
  if (!fn) {
    uint64_t t = concretize(s, getO(f, d.a), 64);
    auto it = g_funcByAddr.find(t);
    if (it == g_funcByAddr.end()) { report(s, s.model, "memory", t == 0 ? "call of null function pointer" : "call of invalid function pointer"); return R_DEAD; }
    fn = it->second;
  }
  if (fn->builtin >= 0) return callBuiltin(s, d, fn->builtin, a);
  if (fn->isDecl) {
    if (fn->f->isIntrinsic()) { bool h; DFunc* save = d.callee; d.callee = fn; Res r = callIntrinsic(s, d, a, h); d.callee = save; if (h) return r; }
    else if (mathFn(s, d, fn->name, a)) return R_NEXT;
    static std::set<std::string> seen; if (seen.insert(fn->name).second) fprintf(stderr, "lsx: unmodelled external %s at %s\n", fn->name.c_str(), stackStr(s).c_str());
    inc(INC_EXTERN); return R_DEAD;
  }
  return pushCall(s, fn, a, d.terms.empty() ? (fn->f->isVarArg() ? &d : nullptr) : &d);
}

// ------------------------------------------------------------------ one instruction
static inline Res step(State& s) {
  Frame& f = s.th[s.cur].fr.back(); DInst& d = f.fn->insts[f.pc];
  cover(d);
  switch (d.op) {
    case D_NOP: return R_NEXT;
    case D_BIN: {
      V a = getO(f, d.a), b = getO(f, d.b); Op o = (Op)d.sub;
      if (o == Op::UDiv || o == Op::SDiv || o == Op::URem || o == Op::SRem) {
        E be = ex(b, d.w), z = mkCmp(Op::Eq, be, mkConst(0, d.w));
        if (!isFalse(z)) { ModelP m; Sat r = feasible(s, z, &m); if (r == Sat::Unknown) inc(INC_UNKNOWN);
          if (r == Sat::Yes) { report(s, m, "arith", "division by zero"); ModelP m2; if (feasible(s, mkNot(z), &m2) != Sat::Yes) return R_DEAD; addPc(s, mkNot(z)); s.model = m2; return R_RETRY; } }
      }
      if (!a.e && !b.e) {
        uint64_t r, x = a.c, y = b.c, m = mask64(d.w);
        switch (o) {
          case Op::Add: r = x + y; break; case Op::Sub: r = x - y; break; case Op::Mul: r = x * y; break;
          case Op::And: r = x & y; break; case Op::Or: r = x | y; break; case Op::Xor: r = x ^ y; break;
          case Op::Shl: r = y >= d.w ? 0 : x << y; break; case Op::LShr: r = y >= d.w ? 0 : x >> y; break;
          case Op::AShr: r = (uint64_t)(sext64(x, d.w) >> (y >= d.w ? d.w - 1 : y)); break;
          case Op::UDiv: r = x / y; break; case Op::URem: r = x % y; break;
          default: { bool ok; r = (uint64_t)foldBin(o, x, y, d.w, &ok); }
        }
        f.regs[d.dst] = vc(r & m); return R_NEXT;
      }
      f.regs[d.dst] = mkV(mkBin(o, ex(a, d.w), ex(b, d.w))); return R_NEXT; }
    case D_CMP: {
      V a = getO(f, d.a), b = getO(f, d.b); unsigned w = d.w2;
      if (!a.e && !b.e) {
        uint64_t x = a.c, y = b.c; int64_t sx = sext64(x, w), sy = sext64(y, w); bool r = false;
        switch (d.sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
          case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; }
        f.regs[d.dst] = vc(r); return R_NEXT;
      }
      E x = ex(a, w), y = ex(b, w), r = nullptr;
      switch (d.sub) { case CmpInst::ICMP_EQ: r = mkCmp(Op::Eq, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkCmp(Op::Eq, x, y)); break; case CmpInst::ICMP_ULT: r = mkCmp(Op::Ult, x, y); break; case CmpInst::ICMP_ULE: r = mkCmp(Op::Ule, x, y); break; case CmpInst::ICMP_UGT: r = mkCmp(Op::Ult, y, x); break; case CmpInst::ICMP_UGE: r = mkCmp(Op::Ule, y, x); break;
        case CmpInst::ICMP_SLT: r = mkCmp(Op::Slt, x, y); break; case CmpInst::ICMP_SLE: r = mkCmp(Op::Sle, x, y); break; case CmpInst::ICMP_SGT: r = mkCmp(Op::Slt, y, x); break; case CmpInst::ICMP_SGE: r = mkCmp(Op::Sle, y, x); break; }
      f.regs[d.dst] = mkV(r); return R_NEXT; }
    case D_FBIN: f.regs[d.dst] = mkV(mkFp((Op)d.sub, ex(getO(f, d.a), d.w), ex(getO(f, d.b), d.w), d.w)); return R_NEXT;
    case D_FNEG: f.regs[d.dst] = mkV(mkBin(Op::Xor, ex(getO(f, d.a), d.w), mkConst((u128)1 << (d.w - 1), d.w))); return R_NEXT;
    case D_FCMP: {
      E x = ex(getO(f, d.a), d.w2), y = ex(getO(f, d.b), d.w2); auto F = [&](Op o, E p, E q) { return mkFp(o, p, q, 1); };
      E u = F(Op::FUno, x, y), r = nullptr; unsigned p = d.sub; 
      switch (p) {
        case CmpInst::FCMP_FALSE: r = mkBool(false); break; case CmpInst::FCMP_TRUE: r = mkBool(true); break;
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = F(Op::FOeq, x, y); break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = F(Op::FOlt, y, x); break;
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = F(Op::FOle, y, x); break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = F(Op::FOlt, x, y); break;
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = F(Op::FOle, x, y); break;
        case CmpInst::FCMP_ONE: r = mkBin(Op::And, mkNot(F(Op::FOeq, x, y)), mkNot(u)); break;
        case CmpInst::FCMP_UNE: r = mkNot(F(Op::FOeq, x, y)); break;
        case CmpInst::FCMP_ORD: r = mkNot(u); break; case CmpInst::FCMP_UNO: r = u; break;
      }
      if (p == CmpInst::FCMP_UEQ || p == CmpInst::FCMP_UGT || p == CmpInst::FCMP_UGE || p == CmpInst::FCMP_ULT || p == CmpInst::FCMP_ULE) r = mkBin(Op::Or, r, u);
      f.regs[d.dst] = mkV(r); return R_NEXT; }
    case D_CAST: {
      V a = getO(f, d.a);
      switch (d.sub) {
        case Instruction::Trunc: f.regs[d.dst] = a.e ? mkV(mkTrunc(a.e, d.w)) : vc(a.c & mask64(d.w)); return R_NEXT;
        case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: 
          if (d.w > 64) f.regs[d.dst] = mkV(mkZExt(ex(a, d.w2), d.w)); else f.regs[d.dst] = a.e ? mkV(mkZExt(a.e, d.w)) : vc(a.c & mask64(d.w)); return R_NEXT;
        case Instruction::SExt: if (d.w > 64) f.regs[d.dst] = mkV(mkSExt(ex(a, d.w2), d.w)); else f.regs[d.dst] = a.e ? mkV(mkSExt(a.e, d.w)) : vc((uint64_t)sext64(a.c, d.w2) & mask64(d.w)); return R_NEXT;
        case Instruction::BitCast: case Instruction::AddrSpaceCast: f.regs[d.dst] = a; return R_NEXT;
        case Instruction::FPToSI: f.regs[d.dst] = mkV(mkFp(Op::FToSI, ex(a, d.w2), nullptr, d.w)); return R_NEXT;
        case Instruction::FPToUI: f.regs[d.dst] = mkV(mkFp(Op::FToUI, ex(a, d.w2), nullptr, d.w)); return R_NEXT;
        case Instruction::SIToFP: f.regs[d.dst] = mkV(mkFp(Op::SIToF, ex(a, d.w2), nullptr, d.w)); return R_NEXT;
        case Instruction::UIToFP: f.regs[d.dst] = mkV(mkFp(Op::UIToF, ex(a, d.w2), nullptr, d.w)); return R_NEXT;
        case Instruction::FPExt: f.regs[d.dst] = mkV(mkFp(Op::FExt, ex(a, d.w2), nullptr, d.w)); return R_NEXT;
        case Instruction::FPTrunc: f.regs[d.dst] = mkV(mkFp(Op::FTrunc, ex(a, d.w2), nullptr, d.w)); return R_NEXT;
      }
      break; }
    case D_LOAD: { // pointers stay concrete: a symbolic slot or choice is decided by forking
      V a = getO(f, d.a); if (d.sub && a.e) a = vc(concretize(s, a, 64));
      if (d.leaves.size() == 1) { V v; MRes r = memLoad(s, a, d.leaves[0].w, v); if (r != M_OK) return mres(r); s.th[s.cur].fr.back().regs[d.dst] = v; return R_NEXT; }
      for (size_t k = 0; k < d.leaves.size(); k++) { V v; MRes r = memLoad(s, mkV(mkBin(Op::Add, ex(a, 64), mkConst(d.leaves[k].off, 64))), d.leaves[k].w, v); if (r != M_OK) return mres(r); s.th[s.cur].fr.back().regs[d.dst + k] = v; }
      return R_NEXT; }
    case D_STORE: {
      V a = getO(f, d.a); if (d.sub && a.e) a = vc(concretize(s, a, 64));
      if (d.leaves.size() == 1) { MRes r = memStore(s, a, getO(f, d.b), d.leaves[0].w); return r == M_OK ? R_NEXT : mres(r); }
      for (size_t k = 0; k < d.leaves.size(); k++) { MRes r = memStore(s, mkV(mkBin(Op::Add, ex(a, 64), mkConst(d.leaves[k].off, 64))), getO(f, d.b, d.b >= 0 ? (int)k : (int)k), d.leaves[k].w); if (r != M_OK) return mres(r); }
      return R_NEXT; }
    case D_GEP: {
      V a = getO(f, d.a); bool sym = a.e != nullptr; for (auto& t : d.terms) if (getO(f, t.opnd).e) sym = true;
      if (!sym) { uint64_t r = a.c + d.imm; for (auto& t : d.terms) r += (uint64_t)sext64(getO(f, t.opnd).c, t.w) * t.scale; f.regs[d.dst] = vc(r); return R_NEXT; }
      E r = mkBin(Op::Add, ex(a, 64), mkConst((uint64_t)d.imm, 64));
      for (auto& t : d.terms) r = mkBin(Op::Add, r, mkBin(Op::Mul, mkSExt(ex(getO(f, t.opnd), t.w), 64), mkConst((uint64_t)t.scale, 64)));
      f.regs[d.dst] = mkV(r); return R_NEXT; }
    case D_ALLOCA: {
      uint64_t n = concretize(s, getO(f, d.a), d.w2); uint64_t sz = n * d.imm; if (sz > (12u << 20)) { inc(INC_ALLOC); return R_DEAD; }
      Obj* o = newObj(s, sz, K_STACK, true); Frame& g = s.th[s.cur].fr.back(); g.allocas.push_back(o->id); g.regs[d.dst] = vc(baseOf(o->id)); return R_NEXT; }
    case D_BR: takeEdge(f, d.edges[0]); return R_JUMPED;
    case D_CONDBR: {
      V c = getO(f, d.a);
      if (!c.e) { takeEdge(f, d.edges[c.c & 1 ? 0 : 1]); return R_JUMPED; }
      evalNewGeneration(); bool mv = evalExpr(c.e, *s.model) != 0; E cur = mv ? c.e : mkNot(c.e), oth = mkNot(cur); ModelP m;
      if (!inPc(s, cur)) {
        Sat r = feasible(s, oth, &m); if (r == Sat::Unknown) inc(INC_UNKNOWN);
        if (r == Sat::Yes) { State* n = cloneState(s); addPc(*n, oth); n->model = m; takeEdge(n->th[n->cur].fr.back(), d.edges[mv ? 1 : 0]); pushWork(n); addPc(s, cur); }
        else if (r == Sat::Unknown) addPc(s, cur);
      }
      takeEdge(s.th[s.cur].fr.back(), d.edges[mv ? 0 : 1]); return R_JUMPED; }
    case D_SWITCH: {
      V c = getO(f, d.a); int def = d.edges.back();
      if (!c.e) { for (size_t i = 0; i < d.cases.size(); i++) if ((uint64_t)d.cases[i] == c.c) { takeEdge(f, d.edges[i]); return R_JUMPED; } takeEdge(f, def); return R_JUMPED; }
      // group cases by (target, copies)
      std::map<std::pair<int, std::vector<std::pair<int, int>>>, E> groups; std::map<std::pair<int, std::vector<std::pair<int, int>>>, int> edgeOf; E none = mkBool(true);
      for (size_t i = 0; i < d.cases.size(); i++) { E eq = mkCmp(Op::Eq, c.e, mkConst(d.cases[i], d.w2)); none = mkBin(Op::And, none, mkNot(eq)); Edge& e = f.fn->edges[d.edges[i]]; auto k = std::make_pair(e.target, e.copies); auto it = groups.find(k); if (it == groups.end()) { groups[k] = eq; edgeOf[k] = d.edges[i]; } else it->second = mkBin(Op::Or, it->second, eq); }
      { Edge& e = f.fn->edges[def]; auto k = std::make_pair(e.target, e.copies); auto it = groups.find(k); if (it == groups.end()) { groups[k] = none; edgeOf[k] = def; } else it->second = mkBin(Op::Or, it->second, none); }
      int chosen = -1; E chosenC = nullptr; bool forked = false; evalNewGeneration();
      for (auto& g : groups) if (evalExpr(g.second, *s.model)) { chosen = edgeOf[g.first]; chosenC = g.second; break; }
      for (auto& g : groups) {
        int e = edgeOf[g.first]; if (e == chosen) continue; ModelP m; Sat r = feasible(s, g.second, &m); if (r == Sat::Unknown) inc(INC_UNKNOWN);
        if (r == Sat::Yes) { State* n = cloneState(s); addPc(*n, g.second); n->model = m; takeEdge(n->th[n->cur].fr.back(), e); pushWork(n); forked = true; }
        else if (r == Sat::Unknown) forked = true;
      }
      if (forked) addPc(s, chosenC);
      takeEdge(s.th[s.cur].fr.back(), chosen); return R_JUMPED; }
    case D_SELECT: {
      V c = getO(f, d.a); if (d.sub && c.e) c = vc(concretize(s, c, 1));
      for (int k = 0; k < d.n; k++) {
        if (!c.e) f.regs[d.dst + k] = getO(f, c.c & 1 ? d.b : d.c, k);
        else { V x = getO(f, d.b, k), y = getO(f, d.c, k); unsigned w = d.leaves[k].w; f.regs[d.dst + k] = mkV(mkIte(c.e, ex(x, w), ex(y, w))); }
      }
      return R_NEXT; }
    case D_COPY: { for (int k = 0; k < d.n; k++) f.regs[d.dst + k] = getO(f, d.a, k); return R_NEXT; }
    case D_INSERT: { for (int k = 0; k < d.n; k++) f.regs[d.dst + k] = getO(f, d.a, k); for (int k = 0; k < d.c; k++) f.regs[d.dst + d.imm + k] = getO(f, d.b, k); return R_NEXT; }
    case D_RET: { V v[64]; int n = std::min(d.n, 64); for (int k = 0; k < n; k++) v[k] = getO(f, d.a, k); return doReturn(s, v, n); }
    case D_UNREACHABLE: report(s, s.model, "unreachable", "unreachable code reached (undefined behaviour)"); return R_DEAD;
    case D_CALL: return doCall(s, d);
    case D_RESUME: { uint64_t e = getO(f, d.a, 0).c; popFrame(s); return unwind(s, e); }
    case D_LANDINGPAD: return R_NEXT;
    case D_CMPXCHG: {
      V a = getO(f, d.a), cmp = getO(f, d.b), nv = getO(f, d.c), old; unsigned w = d.w2; MRes r = memLoad(s, a, w, old, "atomic"); if (r != M_OK) return mres(r);
      E eq = mkCmp(Op::Eq, ex(old, w), ex(cmp, w)); r = memStore(s, a, mkV(mkIte(eq, ex(nv, w), ex(old, w))), w, "atomic"); if (r != M_OK) return mres(r);
      Frame& g = s.th[s.cur].fr.back(); g.regs[d.dst] = old; g.regs[d.dst + 1] = mkV(eq); return R_NEXT; }
    case D_RMW: {
      V a = getO(f, d.a), b = getO(f, d.b), old; unsigned w = d.w2; MRes r = memLoad(s, a, w, old, "atomic"); if (r != M_OK) return mres(r);
      E o = ex(old, w), v = ex(b, w), n = nullptr;
      switch (d.sub) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = mkBin(Op::Add, o, v); break; case AtomicRMWInst::Sub: n = mkBin(Op::Sub, o, v); break; case AtomicRMWInst::And: n = mkBin(Op::And, o, v); break; case AtomicRMWInst::Or: n = mkBin(Op::Or, o, v); break; case AtomicRMWInst::Xor: n = mkBin(Op::Xor, o, v); break; default: inc(INC_UNSUP); return R_DEAD; }
      r = memStore(s, a, mkV(n), w, "atomic"); if (r != M_OK) return mres(r);
      s.th[s.cur].fr.back().regs[d.dst] = old; return R_NEXT; }
  }
  { std::string str; static std::set<std::string> seen; std::string k = std::string(d.src ? d.src->getOpcodeName() : "?") + "@" + locStr(d.src); if (seen.insert(k).second) fprintf(stderr, "lsx: unsupported instruction %s\n", k.c_str()); }
  inc(INC_UNSUP); return R_DEAD;
}

static size_t rssMB() { static long ps = sysconf(_SC_PAGESIZE); FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return (size_t)b * ps >> 20; }
static void flushStats() {
  SH->queries += g_ss.queries; SH->z3calls += g_ss.z3calls; SH->cacheHits += g_ss.cacheHits; SH->modelHits += g_ss.modelHits; SH->unknowns += g_ss.unknowns; SH->sat += g_ss.sat; SH->unsat += g_ss.unsat; SH->z3us += (uint64_t)(g_ss.z3time * 1e6);
  uint64_t mq = (uint64_t)(g_ss.maxQuery * 1e6); if (mq > SH->maxq.load()) SH->maxq = mq;
  g_ss = SolverStats();
}
static void reap(bool block) {
  int st; pid_t p;
  while ((p = waitpid(-1, &st, block ? 0 : WNOHANG)) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { inc(INC_MEM); fprintf(stderr, "lsx: worker %d died (status %x)\n", (int)p, st); }
}
static void trySplit() {
  // hand the oldest pending state to a new worker process when a slot is free
  while (work.size() > 1 && SH->active.load() < opt.workers) {
    int a = SH->active.load(); if (a >= opt.workers || !SH->active.compare_exchange_strong(a, a + 1)) continue;
    pid_t p = fork();
    if (p < 0) { SH->active--; return; }
    if (p == 0) {
      isRoot = false; g_ss = SolverStats(); violSeq = 0; procId = getpid();
      for (size_t i = 1; i < work.size(); i++) delete work[i];
      work.resize(1); return;
    }
    delete work[0]; work.erase(work.begin());        // owned by the child now
  }
}
static void runState(State* s) {
  uint64_t n = 0;
  for (;;) {
    if (((++n) & 0xfff) == 0) {
      if (SH->stop.load()) { delete s; return; }
      if (elapsed() > opt.timeLimit) { SH->timedOut = 1; SH->stop = 1; inc(INC_TIME); delete s; return; }
      if ((n & 0xfffff) == 0) { if (rssMB() > opt.memLimitMB * 3 / 2) { inc(INC_MEM); SH->dropped += work.size() + 1; work.clear(); SH->steps += n; delete s; return; } }
      if (s->steps > opt.maxSteps) { report(*s, s->model, "hang", "step bound exceeded (possible non-termination)"); SH->steps += n; finishPath(*s); delete s; return; }
    }
    s->steps++;
    Res r = step(*s);
    if (r == R_NEXT) { Frame& f = s->th[s->cur].fr.back(); DInst& d = f.fn->insts[f.pc]; if (d.op == D_CALL && d.invoke) takeEdge(f, d.edges[0]); else f.pc++; }
    else if (r == R_DEAD) { SH->steps += n; delete s; return; }
  }
}
void explore(State* init) {
  t_start = std::chrono::steady_clock::now();
  g_timeLeft = [] { return opt.timeLimit - elapsed(); };
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  SH->active = 1; work.push_back(init); procId = getpid();
  int cnt = 0;
  while (!work.empty() && !SH->stop.load()) {
    State* s = work.back(); work.pop_back();
    runState(s);
    trySplit();
    if ((++cnt & 31) == 0) { flushStats(); reap(false); if ((cnt & 255) == 0 && rssMB() > opt.memLimitMB) { inc(INC_MEM); SH->dropped += work.size(); work.clear(); } }
  }
  if (!work.empty()) SH->dropped += work.size();
  flushStats();
  SH->active--;
  reap(isRoot);
  if (!isRoot) _exit(0);
}
