// Thread: start, join, finish, restart, exceptions, hooks and thread variables, under symbolic schedules
#include "mt.h"
#include "lightspeed/base/framework/app.h"
#include "lightspeed/base/sync/threadVar.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/mt/threadHook.h"
#include "lightspeed/mt/exceptions/threadException.h"
#include "lightspeed/base/exceptions/errorMessageException.h"
using namespace LightSpeed;
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
struct Quiet { Quiet() { lsx_nosched(1); } ~Quiet() { lsx_nosched(0); } };
// the application object: told about exceptions which leave a thread
static int appCalls, appKind;
struct TApp : public IApp {
  virtual integer start(const Args&) { return 0; } virtual bool stop() { return true; }
  virtual TypeInfo getInterfaceType() const { return typeid(IApp); } virtual void addService(TypeInfo, IInterface*) {} virtual void removeService(TypeInfo) {} virtual void removeService(TypeInfo, IInterface*) {}
  virtual void onException(const Exception&) {}
  virtual void onThreadException(const Exception& e) throw() { Quiet q; appCalls++; appKind = dynamic_cast<const ErrorMessageException*>(&e) ? 1 : 2; }
};
static TApp* app;
namespace LightSpeed { IApp* IApp::currentPtr() { return app; } IApp& IApp::current() { return *app; } void IApp::exceptionDebug(const Exception&, IApp*) {} AppBase& AppBase::current() { throw 1; } }
struct Body {
  int kind; int* ran; int* gone; Thread* self;
  Body(int k, int* r, int* g, Thread* t) : kind(k), ran(r), gone(g), self(t) { Quiet q; ++*gone; }
  Body(const Body& o) : kind(o.kind), ran(o.ran), gone(o.gone), self(o.self) { Quiet q; ++*gone; }
  ~Body() { Quiet q; --*gone; }
  void operator()() const {
    { Quiet q; CHECK(&Thread::current() == self, "the thread is the current one"); CHECK(self->isRunning(), "a running thread looks as not running"); CHECK(self->getThreadId() == ThreadId::current(), "id of the thread"); }
    if (kind == 1) { { Quiet q; ++*ran; } throw ErrorMessageException(THISLOCATION, "x"); }
    if (kind == 2) { { Quiet q; ++*ran; } throw 5; }
    if (kind == 3) { bool busy = false; try { self->start(ThreadFunction::create(*this)); } catch (ThreadBusyException&) { busy = true; } Quiet q; CHECK(busy, "a running thread was started again"); }
    if (kind == 4) while (!Thread::canFinish()) Thread::sleep(nil);
    Quiet q; ++*ran;
  }
};
#ifndef RUNS
#define RUNS 1
#endif
extern "C" void h_thread() {
  { lsx_nosched(1); mtBegin(); app = new TApp; appCalls = appKind = 0; int ran = 0, gone = 0; CHECK(&Thread::current() == &Thread::getMaster(), "the first thread is the master thread");
  { Thread* t = new Thread; CHECK(!t->isRunning(), "a thread which was not started runs"); int runs = 1 + pick(RUNS, "runs"), exc = 0;
    for (int r = 0; r < runs; r++) {
      int kind = pick(5, "kind"), how = pick(kind == 4 ? 2 : 3, "how"); if (kind == 1 || kind == 2) exc++;
      { Body b(kind, &ran, &gone, t); lsx_nosched(0);
        t->start(ThreadFunction::create(b)); lsx_nosched(1); }
      lsx_nosched(0);
      if (kind == 4 || how == 1) { if (how == 0 && kind == 4) { delete t; t = 0; } else t->stop(); }
      else if (how == 0) t->join();
      else { delete t; t = 0; }
      { Quiet q; CHECK(ran == r + 1, "the function of the thread was not called exactly once before join() returned"); CHECK(gone == 0, "the function still exists after join() returned"); CHECK(appCalls == exc, "an exception which left the thread was not reported exactly once"); if (kind == 1 || kind == 2) CHECK(appKind == kind, "another exception was reported"); if (t) CHECK(!t->isRunning(), "a joined thread runs"); }
      lsx_nosched(1);
      if (!t && r + 1 < runs) t = new Thread;
    }
    lsx_nosched(0); delete t; }
  mtEnd(); delete app; }
  lsx_reach("done");
}
// a thread which the system cannot make
extern "C" void h_threadfail() {
  mtBegin(); app = new TApp; int ran = 0, gone = 0;
  { Thread t; mtFailCreate = 1; bool failed = false; unsigned how = pick(3, "then");
    try { Body b(0, &ran, &gone, &t); t.start(ThreadFunction::create(b), pick(2, "stack") ? 65536 : 0); } catch (UnableToStartThreadException&) { failed = true; }
    CHECK(failed && ran == 0 && gone == 0, "a thread which could not be started"); CHECK(!t.isRunning(), "a thread which could not be started looks as running");
    if (how == 1) t.join();
    if (how == 2) { { Body b(0, &ran, &gone, &t); t.start(ThreadFunction::create(b)); } t.join(); CHECK(ran == 1 && gone == 0, "start after a failed start"); } }
  mtEnd(); delete app; lsx_reach("done");
}
// hooks are told about every thread in the right order
struct Hook : public AbstractThreadHook {
  int no; bool bad; int ini, fin, exc; static int log; Hook(int n) : no(n), bad(false), ini(0), fin(0), exc(0) {}
  virtual void onThreadInit(Thread&) { Quiet q; if (bad) { bad = false; throw ErrorMessageException(THISLOCATION, "hook"); } ini++; } virtual void onThreadExit(Thread&) { Quiet q; CHECK(ini > fin, "exit hook without init hook"); fin++; } virtual void onThreadException(Thread&) throw() { Quiet q; exc++; }
};
extern "C" void h_hooks() {
  mtBegin(); app = new TApp; appCalls = 0; int ran = 0, gone = 0; { Hook a(1), b(2), c(3); Hook* h[3] = {&a, &b, &c}; bool in[3] = {};
  for (int i = 0; i < 4; i++) { unsigned x = pick(3, "hook"); if (pick(2, "install")) { h[x]->install(); in[x] = true; } else { h[x]->uninstall(); in[x] = false; } CHECK(h[x]->isInstalled() == in[x], "isInstalled()"); }
  int kind = pick(3, "kind"); { Thread t; { Body y(kind == 2 ? 0 : kind, &ran, &gone, &t); if (kind == 2 && in[0]) a.bad = true; t.start(ThreadFunction::create(y)); } t.join(); }
  bool hookFailed = kind == 2 && in[0];
  if (!hookFailed) for (int i = 0; i < 3; i++) { CHECK(h[i]->ini == in[i], "a hook was not told about the thread exactly once"); CHECK(h[i]->fin == (in[i] && kind != 1) && h[i]->exc == (in[i] && kind == 1), "a hook was not told about the end of the thread"); }
  else CHECK(ran == 0 && appCalls == 1, "thread with a hook that failed"); CHECK(hookFailed || ran == 1, "the function was called");  CHECK(appCalls == (kind == 1 || hookFailed), "exception of a thread"); CHECK(gone == 0, "the function still exists"); }
  mtEnd(); delete app; lsx_reach("done");
}
// thread variables
struct Val { int v; static int live; Val() : v(7) { Quiet q; ++live; } Val(const Val& o) : v(o.v) { Quiet q; ++live; } ~Val() { Quiet q; --live; } };
int Val::live;
typedef ThreadVarInitDefault<Val> TV;
static TV* tv[6]; static int ntv;
struct Use { int seed; int n; Use(int s, int n) : seed(s), n(n) {} void operator()() const {
  ITLSTable& t = ITLSTable::getInstance(); lsx_nosched(1); for (int i = 0; i < n; i++) { CHECK((*tv[i])[t].v == 7, "a thread sees a value of another thread"); (*tv[i])[t].v = seed + i; } lsx_nosched(0); lsx_sched_point(&ntv, 1);
  lsx_nosched(1); for (int i = n; i-- > 0;) CHECK((*tv[i])[t].v == seed + i, "a thread variable changed"); (*tv[0]).unset(t); CHECK((*tv[0])[t].v == 7, "a thread variable was not unset"); lsx_nosched(0); } };
extern "C" void h_tls() {
  lsx_nosched(1); mtBegin(); app = new TApp; Val::live = 0; int pre = pick(3, "before"), post = pre == 0 ? 1 + pick(3, "after") : pick(4, "after");
  for (int i = 0; i < pre; i++) tv[i] = new TV; ITLSTable& mt = ITLSTable::getInstance(); if (pre && pick(2, "master")) (*tv[0])[mt].v = 7;
  int mine = Val::live; struct Gt { Gate g; } gt; 
  { struct W { Gate* g; Use u; W(Gate* g, Use u) : g(g), u(u) {} void operator()() const { g->wait(nil); u(); } };
    Thread a, b; lsx_nosched(0); a.start(ThreadFunction::create(W(&gt.g, Use(100, pre + post)))); b.start(ThreadFunction::create(W(&gt.g, Use(200, pre + post)))); lsx_nosched(1);
    for (int i = pre; i < pre + post; i++) tv[i] = new TV; lsx_nosched(0); gt.g.open(); a.join(); b.join(); lsx_nosched(1); CHECK(Val::live == mine, "variables of a thread exist after it ended"); CHECK(!mine || (*tv[0])[mt].v == 7, "a variable of the master changed"); if (pre) tv[0]->unset(mt); CHECK(Val::live == 0, "unset() leaves a value"); lsx_nosched(0); }
  mtEnd(); for (int i = 0; i < pre + post; i++) delete tv[i]; delete app; lsx_reach("done");
}
// the variables have distinct places also after some of them have gone
extern "C" void h_tlsalloc() {
  mtBegin(); ITLSTable& t = ITLSTable::getInstance(); ThreadVar<int>* v[5] = {}; int x[5];
  for (int s = 0; s < 6; s++) { unsigned i = pick(4, "var"); if (v[i]) { CHECK((*v[i])[t] == &x[i], "a thread variable was lost"); v[i]->unset(t); CHECK((*v[i])[t] == 0, "a variable was not unset"); delete v[i]; v[i] = 0; } else { v[i] = new ThreadVar<int>; CHECK((*v[i])[t] == 0, "a new variable has a value"); v[i]->set(t, &x[i]); }
    for (int j = 0; j < 4; j++) if (v[j]) CHECK((*v[j])[t] == &x[j], "two variables share one place"); }
  for (int j = 0; j < 4; j++) if (v[j]) { v[j]->unset(t); delete v[j]; } mtEnd(); lsx_reach("done");
}
// two threads start the same Thread; a third party finishes a sleeping thread
struct Slp { int* ran; Slp(int* r) : ran(r) {} void operator()() const { while (!Thread::canFinish()) Thread::sleep(nil); Quiet q; ++*ran; } };
struct Starter { Thread* t; int* ran; int* ok; int* busy; Starter(Thread* t, int* r, int* o, int* b) : t(t), ran(r), ok(o), busy(b) {} void operator()() const { try { t->start(ThreadFunction::create(Slp(ran))); Quiet q; ++*ok; } catch (ThreadBusyException&) { Quiet q; ++*busy; } } };
extern "C" void h_startrace() {
  lsx_nosched(1); mtBegin(); app = new TApp; int ran = 0, ok = 0, busy = 0;
  { Thread t, o; lsx_nosched(0); o.start(ThreadFunction::create(Starter(&t, &ran, &ok, &busy))); Starter(&t, &ran, &ok, &busy)(); o.join(); { Quiet q; CHECK(ok == 1 && busy == 1, "one of two start() calls made at once succeeds"); CHECK(ran == 0 && t.isRunning(), "a sleeping thread ended"); } t.finish(); t.join(); { Quiet q; CHECK(ran == 1 && t.isFinishing(), "thread did not end after finish()"); } }
  mtEnd(); delete app; lsx_reach("done");
}
