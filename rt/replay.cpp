// Native replay runtime: feeds the values of a counterexample file to the harness, and
// follows its recorded schedule with cooperative coroutines.
#include "lsx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
#include <ucontext.h>
#include <new>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

struct In { std::string name; std::vector<unsigned char> b; };
static std::vector<In>* ins; static size_t pos = 0;
struct Ev { unsigned long long count; unsigned target; };
static std::vector<Ev>* evs; static size_t evPos = 0;
static int live = 0;

void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) live++; return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) live++; return p; }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }

static void out(const char* k, const char* v) { fprintf(stderr, "REPLAY %s %s\n", k, v); fflush(stderr); }
static In& next(const char* name, size_t n) {
  if (pos >= ins->size()) { out("DESYNC", name); _exit(50); }
  In& i = (*ins)[pos++];
  std::string nm = *name ? name : "-"; for (auto& c : nm) if (c == ' ') c = '_';
  std::string inm = i.name; for (auto& c : inm) if (c == ' ') c = '_';
  if (i.b.size() != n || inm != nm) { out("DESYNC", name); _exit(50); }
  return i;
}
static uint64_t u64(In& i) { uint64_t v = 0; memcpy(&v, i.b.data(), 8); return v; }
extern "C" {
uint64_t lsx_sym(unsigned, const char* n) { return u64(next(n, 8)); }
uint64_t lsx_range(uint64_t, uint64_t, const char* n) { return u64(next(n, 8)); }
void lsx_bytes(void* p, size_t n, const char* nm) { In& i = next(nm, n); memcpy(p, i.b.data(), n); }
void lsx_assume(int c) { if (!c) { out("ASSUME", "failed"); _exit(51); } }
void lsx_assert(int c, const char* l) { if (!c) { out("ASSERT", l); _exit(77); } }
void lsx_assert_known(int ok, const char* l, int k, const char* id) { if (!ok) { if (k) out("KNOWN", id); else out("ASSERT", l); _exit(k ? 78 : 77); } }
void lsx_fail(const char* l) { out("ASSERT", l); _exit(77); }
void lsx_reach(const char*) {}
void lsx_stop_path() { out("DONE", "stop"); _exit(0); }
uint64_t lsx_concretize(uint64_t v) { return v; }
uint64_t lsx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int lsx_live_heap() { return live; }
void lsx_print(const char* n, uint64_t v) { fprintf(stderr, "print %s = 0x%llx\n", n, (unsigned long long)v); }
int lsx_is_engine() { return 0; }
void lsx_preempt_bound(int) {}
}
// ---- cooperative threads
struct Th { ucontext_t c; void (*fn)(void*); void* arg; bool done = false; bool blocked = false; volatile void* p; unsigned size; uint64_t val; int mode; int timed; int res; void* eh[4]; void* tls; };
static void** tlsVar;   // the one thread-local variable of the library which matters
static std::vector<Th*>* ths; static unsigned cur = 0; static unsigned long long cnt = 0; static int nosched = 0; static unsigned long long extra = 0;
static uint64_t rd(volatile void* p, unsigned n) { uint64_t v = 0; memcpy(&v, (void*)p, n); return v; }
static bool cond(Th* t) { uint64_t v = rd(t->p, t->size); uint64_t m = t->size >= 8 ? ~0ull : (1ull << (8 * t->size)) - 1; return t->mode == 0 ? v != (t->val & m) : v == (t->val & m); }
static bool en(Th* t) { return !t->done && (!t->blocked || cond(t) || t->timed); }
static void* ehGlobals() { return (void*)abi::__cxa_get_globals(); }
static void swtch(unsigned t) {
  if (t >= ths->size() || (*ths)[t]->done) { out("DESYNC", "schedule target"); _exit(50); }
  Th* n = (*ths)[t]; 
  if (n->blocked) { if (!en(n)) { out("DESYNC", "schedule target not enabled"); _exit(50); } n->res = cond(n) ? 1 : 0; n->blocked = false; }
  unsigned o = cur; if (o == t) return; cur = t;
  memcpy((*ths)[o]->eh, ehGlobals(), 16); memcpy(ehGlobals(), n->eh, 16); if (tlsVar) { (*ths)[o]->tls = *tlsVar; *tlsVar = n->tls; }
  swapcontext(&(*ths)[o]->c, &n->c);
}
static void forced() {            // current cannot run: next recorded event, or any enabled thread
  if (evPos < evs->size() && (*evs)[evPos].count == cnt) { unsigned t = (*evs)[evPos++].target; swtch(t); return; }
  for (unsigned k = 1; k <= ths->size(); k++) { unsigned t = (cur + k) % ths->size(); if (en((*ths)[t])) { swtch(t); return; } }
  out("DEADLOCK", "no enabled thread"); _exit(79);
}
static void tmain() { Th* t = (*ths)[cur]; t->fn(t->arg); t->done = true; cnt++; for (;;) forced(); }
extern "C" {
int lsx_thread_create(void (*fn)(void*), void* arg) {
  Th* t = new Th; live--; t->fn = fn; t->arg = arg; t->tls = 0; memset(t->eh, 0, sizeof t->eh); getcontext(&t->c); size_t sz = 1 << 20; t->c.uc_stack.ss_sp = malloc(sz); t->c.uc_stack.ss_size = sz; t->c.uc_link = nullptr; makecontext(&t->c, tmain, 0);
  ths->push_back(t); return ths->size() - 1;
}
int lsx_self() { return cur; }
void lsx_tls(void* p) { tlsVar = (void**)p; }
void lsx_nosched(int on) { nosched = on; }
static void point() {
  if (!evs || !ths) { cnt++; return; }   // a constructor of a global object
  cnt++;
  if (evPos < evs->size()) { if ((*evs)[evPos].count == cnt) { unsigned t = (*evs)[evPos++].target; swtch(t); } }
  else if (ths->size() > 1 && !nosched && ++extra % 64 == 0) { for (unsigned k = 1; k < ths->size(); k++) { unsigned t = (cur + k) % ths->size(); if (en((*ths)[t])) { swtch(t); return; } } }
}
void lsx_sched_point(volatile void*, int) { point(); }
void lsx_yield() { if (evPos < evs->size()) point(); else { cnt++; for (unsigned k = 1; k < ths->size(); k++) { unsigned t = (cur + k) % ths->size(); if (en((*ths)[t])) { swtch(t); return; } } } }
int lsx_block(volatile void* p, unsigned size, uint64_t val, int mode, int timed) {
  Th* t = (*ths)[cur]; t->p = p; t->size = size; t->val = val; t->mode = mode; t->timed = timed; cnt++;
  if (cond(t)) return 1;
  t->blocked = true; 
  if (timed && evPos >= evs->size()) { bool any = false; for (auto x : *ths) if (x != t && en(x)) any = true; if (!any) { t->blocked = false; return 0; } }
  forced(); return t->res;
}
}
static void onTerm() {
  int st; std::type_info* t = abi::__cxa_current_exception_type(); out("TERMINATE", t ? abi::__cxa_demangle(t->name(), 0, 0, &st) : "?"); _exit(80);
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  ins = new std::vector<In>; evs = new std::vector<Ev>; ths = new std::vector<Th*>; ths->push_back(new Th); memset((*ths)[0]->eh, 0, 32); live = 0;
  FILE* f = fopen(argv[2], "r"); if (!f) return 2;
  char* line = nullptr; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    if (line[0] == 'I' && line[1] == ' ') {
      std::string s(line + 2); while (!s.empty() && s.back() == '\n') s.pop_back();
      size_t h = s.rfind(' '), q = s.rfind(' ', h - 1); In i; i.name = s.substr(0, q); size_t n = atol(s.c_str() + q + 1);
      for (size_t k = 0; k < n; k++) { unsigned v; sscanf(s.c_str() + h + 1 + 2 * k, "%2x", &v); i.b.push_back(v); }
      ins->push_back(i);
    } else if (line[0] == 'S' && line[1] == ' ') { Ev e; sscanf(line + 2, "%llu %u", &e.count, &e.target); evs->push_back(e); }
  }
  free(line); fclose(f);
  std::set_terminate(onTerm);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { out("NOENTRY", argv[1]); return 2; }
  live = 0; fn(); out("DONE", "ok"); fflush(stdout); _exit(0);
}
