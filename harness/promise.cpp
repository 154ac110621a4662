// Futures and promises: every observer is told exactly once, the right thing, in order
#include "mt.h"
#include "lightspeed/base/actions/promise.tcc"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/exceptions/canceledException.h"
using namespace LightSpeed;
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
#ifndef NS
#define NS 4
#endif
#ifndef NO
#define NO 3
#endif
enum { VALUE = 1, REJECTED, CANCELED };
struct MyExc : public Exception { LIGHTSPEED_EXCEPTIONFINAL; int no; MyExc(int no) : Exception(THISLOCATION), no(no) {} protected: virtual void message(ExceptionMsg& m) const { m("mine"); } };
static int excNo(const PException& e) { MyExc* m = dynamic_cast<MyExc*>(e.get()); return m ? m->no : dynamic_cast<CanceledException*>(e.get()) ? -1 : -2; }
static int seq;
struct Obs : public Future<int>::IObserver {
  int calls, kind, val, exc, when; Future<int>* readd; Obs* more;
  Obs() : calls(0), kind(0), readd(0), more(0) {}
  void again() { if (readd) { Future<int>* f = readd; readd = 0; f->addObserver(more); } }
  virtual void resolve(const int& r) throw() { calls++; kind = VALUE; val = r; when = seq++; again(); }
  virtual void resolve(const PException& e) throw() { calls++; exc = excNo(e); kind = exc == -1 ? CANCELED : REJECTED; when = seq++; again(); }
};
// history of one future against a plain list
extern "C" void h_future() {
  mtBegin(); seq = 0; Obs o[NO]; int n = 0, ord[NO], expSeq = 0; bool in[NO] = {}, told[NO] = {}; int want = 0, v = (int)lsx_sym(32, "value"), e = pick(2, "exc");
  for (int i = 0; i < NO; i++) in[i] = told[i] = false;
  {
    Future<int> f; Promise<int>* p[2] = {0, 0};
    CHECK(f.isInitialized() && !f.hasPromise(), "a new future has a promise");
    for (int step = 0; step < NS; step++) {
      unsigned op = pick(7, "op");
#define TELL(k, ex) for (int j = 0; j < n; j++) { Obs& x = o[ord[j]]; CHECK(x.calls == 1 && x.kind == (k), "observer was not told exactly once"); CHECK(x.when == expSeq + j, "observers are not told in the order they were added"); if ((k) == VALUE) CHECK(x.val == v, "observer got another value"); if ((k) == REJECTED) CHECK(x.exc == (ex), "observer got another exception"); told[ord[j]] = true; in[ord[j]] = false; } expSeq += n; n = 0;
      if (op == 0) { unsigned i = pick(NO, "observer"); if (in[i] || told[i]) lsx_stop_path(); f.addObserver(&o[i]); ord[n++] = i; in[i] = true; if (want) { TELL(want, e) } }
      else if (op == 1) { unsigned i = pick(NO, "observer"); bool ok = f.removeObserver(&o[i]); CHECK(ok == in[i], "removeObserver() tells whether the observer was there"); if (ok) { in[i] = false; int k = 0; for (int j = 0; j < n; j++) if (ord[j] != (int)i) ord[k++] = ord[j]; n = k; } }
      else if (op == 2) { unsigned i = pick(2, "promise"); if (p[i]) lsx_stop_path(); p[i] = p[1 - i] && pick(2, "copy") ? new Promise<int>(*p[1 - i]) : new Promise<int>(f.getPromise()); CHECK(f.hasPromise(), "hasPromise"); }
      else if (op == 3) { unsigned i = p[0] ? 0 : 1; if (!p[i]) lsx_stop_path(); switch (pick(3, "how")) { case 0: p[i]->resolve(want ? v + 1 : v); break; case 1: *p[i] = want ? v + 1 : v; break; default: { int w = want ? v + 1 : v; p[i]->resolve(Constructor1<int, int>(w)); } } if (!want) { want = VALUE; TELL(VALUE, 0) } }
      else if (op == 4) { unsigned i = p[0] ? 0 : 1; if (!p[i]) lsx_stop_path(); int x = want ? e + 5 : e; if (pick(2, "how")) p[i]->reject(MyExc(x)); else p[i]->reject(PException(new MyExc(x))); if (!want) { want = REJECTED; TELL(REJECTED, e) } }
      else if (op == 5) { IPromiseControl::State s = pick(2, "how") ? f.cancel() : f.getControlInterface()->cancel(); CHECK(s == (want ? IPromiseControl::stateResolved : IPromiseControl::stateNotResolved), "cancel() changes the state"); TELL(CANCELED, -1) }
      else { unsigned i = p[0] ? 0 : 1; if (!p[i]) lsx_stop_path(); delete p[i]; p[i] = 0; if (!p[1 - i] && !want) { want = CANCELED; TELL(CANCELED, -1) } }
      CHECK(f.getState() == (want ? IPromiseControl::stateResolved : IPromiseControl::stateNotResolved), "state");
      if (want == VALUE) { const int* x = f.tryGetValue(); CHECK(x && *x == v, "value of a resolved future"); CHECK(f.getValue() == v, "value of a resolved future"); CHECK(f.wait(Timeout(0)) == v, "value of a resolved future"); }
      else if (want) { int got = 9; try { f.getValue(); } catch (MyExc& x) { got = x.no; } catch (CanceledException&) { got = -1; } catch (...) { got = -3; } CHECK(got == (want == CANCELED ? -1 : e), "reading a rejected future throws its exception"); CHECK(f.tryGetValueNoThrow() == 0, "a rejected future has no value"); }
      else { CHECK(f.tryGetValue() == 0 && f.tryGetValueNoThrow() == 0, "an unresolved future has a value"); bool t = false; try { f.wait(Timeout(0)); } catch (TimeoutException&) { t = true; } CHECK(t, "waiting for an unresolved future"); }
      Obs probe; CHECK(f.tryObserver(&probe) == (want != 0) && probe.calls == (want != 0), "tryObserver()"); if (want) { CHECK(probe.kind == want, "tryObserver() tells the result"); expSeq++; }
    }
    for (int i = 0; i < NO; i++) CHECK(o[i].calls == (told[i] ? 1 : 0), "an observer was told too often or too early");
    f = Future<int>(null); for (int i = 0; i < 2; i++) delete p[i];
    for (int i = 0; i < NO; i++) CHECK(o[i].calls == (in[i] || told[i] ? 1 : 0), "an observer was left without a result when everything has gone");
    for (int j = 0; j < n; j++) CHECK(o[ord[j]].kind == CANCELED, "an abandoned observer is not cancelled");
  }
  mtEnd(); lsx_reach("done");
}
// many observers: removal anywhere, observers that add or remove observers while they are told
struct Remover : public Obs { Future<int>* f; Obs* victim; bool ok; Remover() : f(0), victim(0), ok(false) {} virtual void resolve(const int& r) throw() { Obs::resolve(r); if (f) ok = f->removeObserver(victim); } virtual void resolve(const PException& e) throw() { Obs::resolve(e); if (f) ok = f->removeObserver(victim); } };
extern "C" void h_observers() {
  mtBegin(); seq = 0; { Remover o[6]; Future<int> f; Promise<int> p(f); unsigned n = 1 + pick(5, "observers"), ord[8], k = 0; int v = (int)lsx_sym(32, "value");
  for (unsigned i = 0; i < n; i++) { f.addObserver(&o[i]); ord[k++] = i; }
  for (unsigned r = 0; r < 2; r++) { unsigned i = pick(n + 1, "remove"); if (i == n) continue; bool was = false; unsigned q = 0; for (unsigned j = 0; j < k; j++) if (ord[j] == i) was = true; else ord[q++] = ord[j]; k = q; CHECK(f.removeObserver(&o[i]) == was, "removeObserver() tells whether the observer was there"); if (was && pick(2, "again")) { f.addObserver(&o[i]); ord[k++] = i; } }
  unsigned m = pick(3, "inside"), who = k ? ord[pick(k, "who")] : 0;
  if (k && m == 1) { o[who].readd = &f; o[who].more = &o[5]; ord[k++] = 5; }
  if (k > 1 && m == 2) { unsigned vi = ord[pick(k, "victim")]; o[who].f = &f; o[who].victim = &o[vi]; unsigned a = 9, b = 9, q = 0; for (unsigned j = 0; j < k; j++) { if (ord[j] == who) a = j; if (ord[j] == vi) b = j; } if (b > a) { for (unsigned j = 0; j < k; j++) if (j != b) ord[q++] = ord[j]; k = q; } else m = 3; }
  if (pick(2, "how")) p.resolve(v); else p.reject(MyExc(3));
  for (unsigned j = 0; j < k; j++) { Obs& x = o[ord[j]]; CHECK(x.calls == 1, "observer was not told exactly once"); CHECK(x.when == (int)j, "observers are not told in the order they were added"); CHECK(x.kind == VALUE ? x.val == v : x.exc == 3, "observer got another result"); }
  CHECK(seq == (int)k, "a removed observer was told");
  if (m == 2 && k) CHECK(o[who].ok == (o[who].f != 0), "an observer waiting in the queue cannot be removed"); if (m == 3) CHECK(!o[who].ok, "removed an observer that was told already"); }
  mtEnd(); lsx_reach("done");
}
// chains
struct SE1 : public std::exception { const char* what() const throw() { return "std"; } };
struct Fn { int mode; int add; Fn(int mode, int add) : mode(mode), add(add) {} int operator()(int x) const { switch (mode) { case 1: throw MyExc(100 + add); case 2: throw SE1(); case 3: throw 5; } return x + add; } };
struct RFn { int mode, add; int* saw; RFn(int mode, int add, int* saw) : mode(mode), add(add), saw(saw) {} int operator()(const PException& e) const { *saw = excNo(e); switch (mode) { case 1: throw MyExc(200 + add); case 2: throw SE1(); case 3: throw 5; } return add; } };
struct CFn { int* saw; int* cnt; CFn(int* saw, int* cnt) : saw(saw), cnt(cnt) {} void operator()(int x) const { *saw = x; ++*cnt; } };
struct CRFn { int* saw; int* cnt; CRFn(int* saw, int* cnt) : saw(saw), cnt(cnt) {} void operator()(const PException& e) const { *saw = excNo(e); ++*cnt; } };
struct FFn { Future<int> r; FFn(Future<int> r) : r(r) {} Future<int> operator()(int) const { return r; } };
struct R { int kind, x; };   // VALUE: value, otherwise: number of the exception (-1 cancelled, -3 std or unknown)
static R after(R in, int mode, int add, int base) { R o; if (mode == 0) { o.kind = VALUE; o.x = in.x + add; } else { o.kind = REJECTED; o.x = mode == 1 ? base + add : -3; } return o; }
static void same(Future<int> f, R w, const char* what) {
  CHECK(f.getState() == IPromiseControl::stateResolved, what); int k = VALUE, x = 0; try { x = f.getValue(); } catch (MyExc& e) { k = REJECTED; x = e.no; } catch (CanceledException&) { k = REJECTED; x = -1; } catch (...) { k = REJECTED; x = -3; } CHECK(k == w.kind, what); CHECK(x == w.x, what);
}
static int saw1, cnt1, saw2, cnt2;
static Future<int> later(null); static R laterR;
static Future<int> link(unsigned c, Future<int> f, R in, R& out, unsigned mode, int add) {
  out = in; bool v = in.kind == VALUE; R none = {VALUE, 0};
  switch (c) {
    case 0: if (v) out = after(in, mode, add, 100); return f.then(Fn(mode, add));
    case 1: if (v) out = after(in, mode, add, 100); else { out = after(none, 0, add, 200); } return f.then(Fn(mode, add), RFn(0, add, &saw1));
    case 2: if (!v) out = after(none, mode, add, 200); return f.onException(RFn(mode, add, &saw1));
    case 3: return f.isolate();
    case 4: if (v) out = after(in, mode, add, 100); return f >> Fn(mode, add);
    case 5: if (v) out = after(in, mode, add, 100); return Future<int>::transform(f, Fn(mode, add));
    case 6: { Future<int> g; Promise<int> p = g.getPromise(); p.Future<int>::Resolution::resolve(f); return g; }
    case 7: { Future<int> g; f.then(g.getPromise()); return g; }
    default: if (v) out = laterR; return f >> FFn(later);
  }
}
#ifndef DEPTH
#define DEPTH 2
#endif
extern "C" void h_chain() {
  mtBegin(); { int v = (int)lsx_sym(32, "value"); Future<int> f; Promise<int>* p = new Promise<int>(f); unsigned when = pick(DEPTH + 1, "resolve after"), how = pick(3, "outcome"); R r = {how == 0 ? VALUE : REJECTED, how == 0 ? v : how == 1 ? 4 : -1}; Future<int> cur = f; 
    Promise<int>* lp; laterR.kind = pick(2, "late") ? VALUE : REJECTED; laterR.x = 77; later = Future<int>(); lp = new Promise<int>(later.getPromise());
    for (unsigned d = 0; d <= DEPTH; d++) {
      if (d == when) { if (how == 0) p->resolve(v); else if (how == 1) p->reject(MyExc(4)); delete p; }
      if (d < DEPTH) { R o; cur = link(pick(9, "combinator"), cur, r, o, pick(4, "function"), (int)(d + 1) * 1000); r = o; }
    }
    if (laterR.kind == VALUE) lp->resolve(laterR.x); else lp->reject(MyExc(laterR.x)); delete lp; later = null;
    same(cur, r, "the end of the chain does not have the result"); R r0 = {how == 0 ? VALUE : REJECTED, how == 0 ? v : how == 1 ? 4 : -1}; same(f, r0, "the source of the chain changed"); }
  mtEnd(); lsx_reach("done");
}
// side effects and promises filled by calls
extern "C" void h_calls() {
  mtBegin(); { saw1 = saw2 = cnt1 = cnt2 = 0; int v = (int)lsx_sym(32, "value"); Future<int> f; Promise<int>* p = new Promise<int>(f); bool early = pick(2, "early"); unsigned how = pick(4, "outcome"), c = pick(4, "call"); Future<int> g(null); bool ok = how == 0;
    for (int i = 0; i < 2; i++) {
      if (i == (early ? 0 : 1)) { if (how == 0) p->callAndResolve(Fn(0, 5), v); else if (how == 1) p->callAndResolve(Fn(1, 5), v); else if (how == 2) try { throw MyExc(105); } catch (...) { p->rejectInCatch(); } delete p; }
      else { if (c == 0) g = f.thenCall(CFn(&saw1, &cnt1)); else if (c == 1) g = f.thenCall(CFn(&saw1, &cnt1), CRFn(&saw2, &cnt2)); else if (c == 2) g = f.onExceptionCall(CRFn(&saw2, &cnt2)); else { g = f; } } }
    CHECK(cnt1 == (ok && c < 2 ? 1 : 0), "function for the value is called exactly if there is a value"); CHECK(cnt2 == (!ok && (c == 1 || c == 2) ? 1 : 0), "function for the exception is called exactly if there is one"); if (cnt1) CHECK(saw1 == v + 5, "value given to the function"); if (cnt2) CHECK(saw2 == (how == 3 ? -1 : 105), "exception given to the function");
    R r = {ok ? VALUE : REJECTED, ok ? v + 5 : how == 3 ? -1 : 105}; same(g, r, "result"); same(f, r, "result"); }
  mtEnd(); lsx_reach("done");
}
// futures without a value
struct VFn { int* cnt; int mode; VFn(int* c, int m) : cnt(c), mode(m) {} void operator()() const { ++*cnt; if (mode) throw MyExc(9); } };
struct VObs : public Future<void>::IObserver { int ok, bad; VObs() : ok(0), bad(0) {} virtual void resolve() throw() { ok++; } virtual void resolve(const PException&) throw() { bad++; } };
extern "C" void h_void() {
  mtBegin(); { cnt1 = cnt2 = 0; Future<void> f; Promise<void>* p = new Promise<void>(f.getPromise()); bool early = pick(2, "early"); unsigned how = pick(3, "outcome"), c = pick(4, "combinator"), mode = 0; Future<void> g(null); VObs o;
    for (int i = 0; i < 2; i++) {
      if (i == (early ? 0 : 1)) { if (how == 0) p->resolve(); else if (how == 1) p->reject(MyExc(4)); delete p; }
      else { if (c == 0) { mode = pick(2, "throws"); g = f.then(VFn(&cnt1, mode)); } else if (c == 1) g = f.thenCall(VFn(&cnt1, 0)); else if (c == 2) { mode = pick(2, "throws"); g = f >> VFn(&cnt1, mode); } else { Future<void> h; f.then(h.getPromise()); g = h; } g.addObserver(&o); } }
    CHECK(cnt1 == (how == 0 && c < 3 ? 1 : 0), "function is called exactly if the future is resolved"); bool ok = how == 0 && !mode; CHECK(o.ok == ok && o.bad == !ok, "observer of a void future is told once"); CHECK(g.getState() == IPromiseControl::stateResolved, "state"); }
  mtEnd(); lsx_reach("done");
}
// threads: the waiting thread gets the result, every observer is told once
struct ObsM : public Future<int>::IObserver { volatile int calls, kind, val; ObsM() : calls(0), kind(0), val(0) {} virtual void resolve(const int& r) throw() { lsx_nosched(1); calls++; kind = VALUE; val = r; lsx_nosched(0); } virtual void resolve(const PException& e) throw() { lsx_nosched(1); calls++; kind = excNo(e) == -1 ? CANCELED : REJECTED; lsx_nosched(0); } };
struct JRes : MtJob { Promise<int>* p; unsigned how; int v; void run() { if (how == 0) p->resolve(v); else if (how == 1) p->reject(PException(new MyExc(4))); delete p; } };
struct JWait : MtJob { Future<int>* f; unsigned how; int got; bool timed; ObsM o; void run() { got = 0; if (how == 3) { f->addObserver(&o); return; } if (how == 4) { f->addObserver(&o); got = f->removeObserver(&o) ? 1 : 2; return; } if (how == 5) { f->addObserver(&o); f->cancel(); return; }
    try { const int& x = timed ? f->wait(Timeout(10)) : f->wait(); got = x; } catch (MyExc& e) { got = -40 - e.no; } catch (CanceledException&) { got = -41; } catch (TimeoutException&) { got = -42; } } };
#ifndef NT
#define NT 1
#endif
extern "C" void h_futuremt() {
  Future<int> f; JRes r; r.p = new Promise<int>(f); r.how = pick(3, "outcome"); r.v = 7; JWait w[2]; for (int i = 0; i < NT; i++) { w[i].f = &f; w[i].how = 2 + pick(4, "what"); w[i].timed = w[i].how == 2 && pick(2, "timed"); }
  mtStart(&w[0], &r, NT > 1 ? &w[1] : 0); mtJoin(NT + 1); int want = r.how == 0 ? 7 : r.how == 1 ? -44 : -41; bool anyCancel = false; for (int i = 0; i < NT; i++) if (w[i].how == 5) anyCancel = true;
  for (int i = 0; i < NT; i++) { JWait& x = w[i];
    if (x.how == 2) CHECK(x.got == want || (x.timed && x.got == -42) || (anyCancel && x.got == -41), "waiting thread did not get the result");
    else if (x.how == 4 && x.got == 1) CHECK(x.o.calls == 0, "a removed observer was told"); else { CHECK(x.o.calls == 1, "observer was not told exactly once"); CHECK(x.o.kind == (r.how == 0 ? VALUE : r.how == 1 ? REJECTED : CANCELED) || (anyCancel && x.o.kind == CANCELED), "observer got another result"); } }
  CHECK(f.getState() == IPromiseControl::stateResolved, "state"); lsx_reach("done");
}
