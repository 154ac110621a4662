// Dispatcher and Scheduler: every action is carried out or rejected once and destroyed, in order and in time
#include "mt.h"
#include "lightspeed/base/actions/idispatcher.tcc"
#include "lightspeed/mt/scheduler.h"
#include "lightspeed/base/framework/app.h"
#include "lightspeed/mt/exceptions/threadException.h"
using namespace LightSpeed;
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
struct Quiet { Quiet() { lsx_nosched(1); } ~Quiet() { lsx_nosched(0); } };
struct TApp : public IApp {
  virtual integer start(const Args&) { return 0; } virtual bool stop() { return true; }
  virtual TypeInfo getInterfaceType() const { return typeid(IApp); } virtual void addService(TypeInfo, IInterface*) {} virtual void removeService(TypeInfo) {} virtual void removeService(TypeInfo, IInterface*) {}
  virtual void onException(const Exception&) {} virtual void onThreadException(const Exception&) throw() { lsx_fail("a dispatcher ended by an exception"); } };
static TApp* app;
namespace LightSpeed { IApp* IApp::currentPtr() { return app; } IApp& IApp::current() { return *app; } void IApp::exceptionDebug(const Exception&, IApp*) {} AppBase& AppBase::current() { throw 1; } }
static volatile int ran[12], rej[12], live[12], ended, fin; static int order[24], nord; static Thread* worker; static natural due[12];
static void clearLog() { for (int i = 0; i < 12; i++) { ran[i] = rej[i] = live[i] = 0; due[i] = 0; } nord = 0; ended = fin = 0; worker = 0; }
static void did(int id) { CHECK(!ended, "an action was carried out after join() returned"); CHECK(!ran[id] && !rej[id], "an action was carried out twice or after it was rejected"); CHECK(!worker || &Thread::current() == worker, "an action was carried out in another thread"); ran[id]++; order[nord++] = id; }
// its own action
struct Own : IDispatcher::AbstractAction { int id; Own(int i) : id(i) { Quiet q; live[id]++; } ~Own() throw() { Quiet q; live[id]--; CHECK(live[id] == 0 && ran[id] + rej[id] == 1, "an action was destroyed before its end"); }
  void run() throw() { Quiet q; did(id); } void reject() throw() { Quiet q; CHECK(!ran[id] && !rej[id], "an action was rejected twice or after it was carried out"); rej[id]++; } };
// what the observer of a promise is told
struct Obs : Future<int>::IObserver { int id, val; bool canc; Obs() : id(0), val(0), canc(false) {} virtual void resolve(const int& v) throw() { Quiet q; val = v; did(id); } virtual void resolve(const PException& e) throw() { Quiet q; canc = dynamic_cast<const CanceledException*>((const Exception*)e) != 0; CHECK(!ran[id] && !rej[id], "a promise was rejected twice or after it was resolved"); rej[id]++; } };
struct VObs : Future<void>::IObserver { int id; virtual void resolve() throw() { { Quiet q; did(id); if (due[id]) CHECK((integer)(SysTime::now().msecs() - due[id]) >= 0, "a promise was resolved before its time"); } } virtual void resolve(const PException& e) throw() { Quiet q; CHECK(!ran[id] && !rej[id], "a promise was rejected twice or after it was resolved"); rej[id]++; } };
struct Fn { int id; IDispatcher* d; int kind; Fn(int i, IDispatcher* d, int k) : id(i), d(d), kind(k) { Quiet q; live[id]++; } Fn(const Fn& o) : id(o.id), d(o.d), kind(o.kind) { Quiet q; live[id]++; } ~Fn() { Quiet q; live[id]--; }
  void operator()() const { { Quiet q; did(id); } if (kind == 1) d->dispatch((IDispatcher::AbstractAction*)new(d->getActionAllocator()) Own(id + 6)); if (kind == 2) static_cast<Dispatcher*>(d)->quit(); } };
struct FnR { int id; FnR(int i) : id(i) {} int operator()() const { return 100 + id; } };
struct Body { Dispatcher* d; Body(Dispatcher* d) : d(d) {} void operator()() const { d->run(); { Quiet q; fin = 1; } } };
#ifndef NA
#define NA 2
#endif
#ifndef KOFF
#define KOFF 0
#endif
#ifndef KINDS
#define KINDS 8
#endif
// one action of every kind
struct Send { int id; int kind; Obs o; VObs vo; Future<int> f, src; Future<void> fv; bool later;
  void init(int i, int k) { id = i; kind = k; o.id = vo.id = i; }
  void send(Dispatcher* d) { IDispatcher& x = *d;
    if (kind < 3) x.dispatch(Fn(id, d, kind));
    if (kind == 3) x.dispatch((IDispatcher::AbstractAction*)new(x.getActionAllocator()) Own(id));
    if (kind >= 4 && kind < 7) f.addObserver(&o);
    if (kind == 4) x.dispatch(FnR(id), f.getPromise());
    if (kind == 5) x.dispatch(f.getPromise(), (const int&)(100 + id));
    if (kind == 6) { Promise<int> p = src.getPromise(); x.dispatchFuture(src, f.getPromise()); p.resolve(100 + id); }
    if (kind == 7) { fv.addObserver(&vo); x.dispatch(fv.getPromise()); } }
  void check() { CHECK(live[id] == 0 && live[id + 6] == 0, "an action exists after the end"); CHECK(ran[id] + rej[id] == (kind < 3 ? ran[id] : 1), "an action was lost"); if (kind >= 4 && kind < 7) { if (ran[id]) CHECK(o.val == 100 + id, "value of the promise"); else CHECK(o.canc, "a rejected promise has another exception"); } if (kind == 1 && ran[id]) CHECK(ran[id + 6] + rej[id + 6] == 1, "an action was lost"); } };
extern "C" void h_disp() {
  lsx_nosched(1); mtBegin(); app = new TApp; clearLog(); unsigned end = pick(4, "end"), late = pick(2, "late"); { Dispatcher* d = new Dispatcher; Send s[NA]; bool quits = false; int exp = 0;
    for (int i = 0; i < NA; i++) { s[i].init(i, KOFF + pick(KINDS, "kind")); if (s[i].kind == 2) quits = true; }
    { Thread t; worker = &t; lsx_nosched(0); Own* w = new Own(11); if (late) for (int i = 0; i < NA; i++) s[i].send(d); else d->dispatch(w); t.start(ThreadFunction::create(Body(d))); if (late) d->dispatch(w);
      if (!late) for (int i = 0; i < NA; i++) s[i].send(d);
      // run() has begun when something was carried out
      while (ran[late ? 0 : 11] == 0 && !fin) { if (rej[11]) break; if (late && s[0].kind == 1 ? 0 : 0) break; lsx_block(&ran[late ? 0 : 11], 4, 0, 0, 0); }
      if (end == 0 || (end == 1 && quits)) d->quit();
      if (end == 1 && !quits) { for (int i = 0; i < NA; i++) while (!ran[i]) lsx_block(&ran[i], 4, 0, 0, 0); d->quit(); }
      if (end == 2) { d->dispatch((IDispatcher::AbstractAction*)new Own(10)); d->quit(); }
      if (end == 3) { d->quit(); d->join(); { Quiet q; ended = 1; } }
      delete d; { Quiet q; ended = 1; for (int i = 0; i < NA; i++) { s[i].check(); if (end == 1 && !quits) CHECK(ran[i] == 1, "an action was rejected without a reason"); }
        CHECK(ran[11] + rej[11] == 1 && live[11] == 0, "an action was lost"); if (end == 2) CHECK(ran[10] + rej[10] == 1 && live[10] == 0, "an action was lost");
        int last = -1; for (int i = 0; i < nord; i++) if (order[i] < 6) { CHECK(order[i] > last, "actions carried out in another order than dispatched"); last = order[i]; } }
      t.join(); }
    lsx_nosched(1); }
  lsx_nosched(0); mtEnd(); delete app; lsx_reach("done");
}
// two threads dispatch, the third one carries out
struct Prod { Dispatcher* d; int id; Prod(Dispatcher* d, int i) : d(d), id(i) {} void operator()() const { d->dispatch((IDispatcher::AbstractAction*)new(static_cast<IDispatcher*>(d)->getActionAllocator()) Own(id)); d->dispatch((IDispatcher::AbstractAction*)new(static_cast<IDispatcher*>(d)->getActionAllocator()) Own(id + 1)); } };
extern "C" void h_dispmt() {
  lsx_nosched(1); mtBegin(); app = new TApp; clearLog(); unsigned wait = pick(2, "wait"); { Dispatcher* d = new Dispatcher; { Thread t, p; worker = &t; lsx_nosched(0); d->dispatch((IDispatcher::AbstractAction*)new Own(11)); t.start(ThreadFunction::create(Body(d))); p.start(ThreadFunction::create(Prod(d, 0))); Prod(d, 3)(); p.join();
    while (!ran[11]) lsx_block(&ran[11], 4, 0, 0, 0); if (wait) { static const int k[] = {0, 1, 3, 4}; for (int i = 0; i < 4; i++) while (!ran[k[i]]) lsx_block(&ran[k[i]], 4, 0, 0, 0); } d->quit();
    delete d; { Quiet q; ended = 1; static const int k[] = {0, 1, 3, 4}; for (int i = 0; i < 4; i++) CHECK(ran[k[i]] + rej[k[i]] == 1 && live[k[i]] == 0, "an action was lost"); int l0 = -1, l1 = -1; for (int i = 0; i < nord; i++) { int& l = order[i] < 3 ? l0 : l1; if (order[i] < 6) { CHECK(order[i] > l, "actions of one thread carried out in another order"); l = order[i]; } } if (ran[1]) CHECK(ran[0], "order"); if (ran[4]) CHECK(ran[3], "order"); }
    t.join(); } lsx_nosched(1); }
  lsx_nosched(0); mtEnd(); delete app; lsx_reach("done");
}
#ifndef NS
#define NS 2
#endif
// promises are resolved not before their time and in order of time
extern "C" void h_disptime() {
  lsx_nosched(1); mtBegin(); app = new TApp; clearLog(); unsigned before = pick(2, "before"), end = pick(2, "end"), plain = pick(2, "plain"); { Scheduler* d = new Scheduler; VObs o[NS]; Future<void> f[NS]; unsigned dl[NS]; natural t0;
    for (int i = 0; i < NS; i++) { o[i].id = i; f[i].addObserver(&o[i]); dl[i] = 3 * pick(3, "delay"); }
    { Thread t; worker = &t; t0 = SysTime::now().msecs(); lsx_nosched(0);
      if (!before) { t.start(ThreadFunction::create(Body(d))); }
      for (int i = 0; i < NS; i++) { { Quiet q; due[i] = SysTime::now().msecs() + dl[i]; if (due[i] == 0) due[i] = 0; } d->schedule(Timeout(dl[i]), f[i].getPromise()); }
      if (before) { t.start(ThreadFunction::create(Body(d))); }
      if (plain) d->dispatch((IDispatcher::AbstractAction*)new Own(11));
      bool bad = false; try { Future<void> z; d->schedule(Timeout(nil), z.getPromise()); } catch (InvalidParamException&) { bad = true; } CHECK(bad, "infinite time");
      if (plain && end) while (!ran[11]) lsx_block(&ran[11], 4, 0, 0, 0); else for (int i = 0; i < NS; i++) while (!ran[i]) lsx_block(&ran[i], 4, 0, 0, 0);
      d->quit(); f[0].clear();
      delete d; { Quiet q; ended = 1; for (int i = 0; i < NS; i++) { CHECK(ran[i] + rej[i] <= 1, "a promise was resolved twice"); if (!(plain && end)) CHECK(ran[i] == 1, "a promise was not resolved"); } if (plain) CHECK(ran[11] + rej[11] == 1 && live[11] == 0, "an action was lost"); if (before) for (int i = 1; i < nord; i++) if (order[i] < 11 && order[i - 1] < 11) CHECK(due[order[i - 1]] <= due[order[i]], "promises resolved in another order than their times"); }
      t.join(); } lsx_nosched(1); for (int i = 0; i < NS; i++) f[i].clear(); }
  lsx_nosched(0); mtEnd(); delete app; lsx_reach("done");
}
