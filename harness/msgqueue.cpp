// Message queues: every message is run or rejected once and done once, in order
#include "mt.h"
#include "lightspeed/base/actions/msgQueue.h"
#include "lightspeed/base/actions/schedulerOld.h"
#include "lightspeed/base/memory/stdAlloc.h"
#ifdef MTREAL
#include "lightspeed/mt/msgthread.h"
#include "lightspeed/base/framework/app.h"
#endif
using namespace LightSpeed;
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
struct Quiet { Quiet() { lsx_nosched(1); } ~Quiet() { lsx_nosched(0); } };
// what happened to the messages
static int ran[12], rej[12], don[12], order[24], nord, cur;
static void resetLog() { for (int i = 0; i < 12; i++) ran[i] = rej[i] = don[i] = 0; nord = 0; cur = -1; }
struct M : MsgQueue::AbstractMsg {
  int id; M(int i) : id(i) {}
  void run() throw() { Quiet q; CHECK(!don[id] && !ran[id] && !rej[id], "a message was run twice or after it was rejected"); ran[id]++; order[nord++] = id; }
  void reject() throw() { Quiet q; CHECK(!don[id] && !ran[id] && !rej[id], "a message was rejected twice or after it was run"); rej[id]++; }
  void done() throw() { { Quiet q; CHECK(!don[id] && ran[id] + rej[id] == 1, "done() before the end of the message or twice"); don[id]++; } delete this; }
};
struct Fn { int id; Fn(int i) : id(i) {} void operator()() const { Quiet q; ran[id]++; order[nord++] = id; } };
struct FnR { int id; FnR(int i) : id(i) {} void operator()() const { Quiet q; rej[id]++; } };
struct TQ : MsgQueue { volatile int told; TQ() : told(0) {} TQ(const TQ& o) : MsgQueue(o), told(0) {} virtual void notify() { Quiet q; told++; } bool pump() { return pumpMessage(); } };
struct Tok { int id; int kind; };        // kind: 0 message, 1 flush, 2 cancel, 3 finish notification
#ifndef NS
#define NS 4
#endif
extern "C" void h_msgq() {
  mtBegin(); resetLog(); Tok q[2 * NS]; int n = 0, ids = 0, told = 0; int er[12] = {}, ej[12] = {}, eo[24], en = 0; MsgQueue::NotifyMsg* nm[NS] = {}; int nn = 0; MsgQueue::AbstractMsg* ptr[12] = {}; 
  { TQ* t = new TQ; if (pick(2, "copied")) { TQ* c = new TQ(*t); delete t; t = c; }
    for (int s = 0; s < NS; s++) {
      CHECK(t->getCurrentMessage() == 0, "a message is current while none is processed"); CHECK((int)t->length() == n && t->isRunning() == (n > 0) && t->empty() == (n == 0), "length of the queue");
      unsigned op = pick(8, "op");
      if (op < 3) { bool pr = op == 1; ptr[ids] = new M(ids); if (op == 2) { delete ptr[ids]; ptr[ids] = t->postFnCall(Fn(ids), FnR(ids)); } else if (pr) t->postPriorityMessage(ptr[ids]); else t->postMessage(ptr[ids]); if (pr) { for (int i = n; i > 0; i--) q[i] = q[i - 1]; q[0].id = ids; q[0].kind = 0; } else { q[n].id = ids; q[n].kind = 0; } n++; ids++; told++; }
      else if (op == 3 || op == 4) { nm[nn] = op == 3 ? new MsgQueue::FlushMsg : new MsgQueue::NotifyMsg; if (op == 3) t->waitForFinishMsg(*nm[nn]); else t->syncToQueue(*nm[nn]); if (op == 3) { for (int i = n; i > 0; i--) q[i] = q[i - 1]; q[0].id = nn; q[0].kind = 1; } else { q[n].id = nn; q[n].kind = 3; } n++; nn++; told++; }
      else if (op == 5) { int k = ids ? pick(ids, "cancelled") : -1; MsgQueue::AbstractMsg* c = t->cancelMessage(k < 0 ? 0 : ptr[k], true); CHECK(c != 0, "asynchronous cancellation"); for (int i = n; i > 0; i--) q[i] = q[i - 1]; q[0].id = k; q[0].kind = 2; n++; told++; }
      else if (op == 6) { bool r = t->pump(); CHECK(r == (n > 0), "pumpMessage() tells whether there was a message"); if (n) { Tok m = q[0]; n--; for (int i = 0; i < n; i++) q[i] = q[i + 1];
          if (m.kind == 0) { er[m.id]++; eo[en++] = m.id; } else if (m.kind == 1) { CHECK((bool)*nm[m.id] && !nm[m.id]->isRejected(), "flush is not signaled"); for (int i = 0; i < n; i++) { if (q[i].kind == 0) ej[q[i].id]++; else if (q[i].kind != 2) CHECK((bool)*nm[q[i].id] && nm[q[i].id]->isRejected(), "a flushed notification"); } n = 0; }
          else if (m.kind == 2) { int k = 0; for (int i = 0; i < n; i++) { if (q[i].kind == 0 && q[i].id == m.id) ej[m.id]++; else q[k++] = q[i]; } n = k; } else CHECK((bool)*nm[m.id] && !nm[m.id]->isRejected(), "notification is not signaled"); } }
      else { MsgQueue::NotifyMsg z; t->waitForFinishMsg(z); CHECK(!z, "notified too early"); told++; CHECK(t->pump() && (bool)z && !z.isRejected(), "a priority message is not processed first"); }
      for (int i = 0; i < ids; i++) CHECK(ran[i] == er[i] && rej[i] == ej[i], "a message has another fate than it should have"); CHECK(nord == en, "number of messages run"); for (int i = 0; i < en; i++) CHECK(order[i] == eo[i], "messages run in another order"); for (int i = 0; i < n; i++) if (q[i].kind == 1 || q[i].kind == 3) CHECK(!*nm[q[i].id], "notified too early"); CHECK(t->told == told, "the worker was not told about a message"); }
    t->postMessage(0); delete t; }
  for (int i = 0; i < n; i++) if (q[i].kind == 0) ej[q[i].id]++; else if (q[i].kind != 2) CHECK((bool)*nm[q[i].id] && nm[q[i].id]->isRejected(), "a notification in a destroyed queue");
  for (int i = 0; i < ids; i++) { CHECK(ran[i] == er[i] && rej[i] == ej[i], "a message left in a destroyed queue is rejected"); } for (int i = 0; i < nn; i++) delete nm[i];
  mtEnd(); lsx_reach("done");
}
// scheduler with a time of its own
struct TS : OldScheduler { natural now; TS() : now(1000) {} virtual natural getCurTime() const { return now; } virtual void notify() {} bool pump() { return pumpMessage(); } natural wait() { return getWaitTime(); } };
struct Ev : OldScheduler::AbstractEvent { int id; Ev(int i) : id(i) {} void run() throw() { ran[id]++; order[nord++] = id; } void reject() throw() { rej[id]++; } void done() throw() { don[id]++; delete this; } };
#ifndef ND
#define ND 6
#endif
extern "C" void h_sched() {
  mtBegin(); resetLog(); int at[12], n = 0; bool plain[12]; int seen[12]; int nseen = 0;
  { TS* t = new TS; t->now = pick(2, "epoch") ? (natural)-3 : 1000; natural t0 = t->now;
    for (int s = 0; s < NS; s++) { unsigned op = pick(4, "op");
      if (op == 0) { int d = pick(ND, "delay"); at[n] = (int)(t->now - t0) + d; plain[n] = false; if (pick(2, "call")) t->scheduleFnCall(Fn(n), FnR(n), d); else t->schedule(new Ev(n), d); n++; }
      else if (op == 1) { at[n] = (int)(t->now - t0); plain[n] = true; if (pick(2, "call")) t->postFnCall(Fn(n), FnR(n)); else t->postMessage(new M(n)); n++; }
      else if (op == 2) { t->now += 1 + pick(3, "time"); }
      // everything which is due is run, in order of time; nothing else is
      int due[12], nd = 0; int tm = (int)(t->now - t0); int first = -1; for (int i = 0; i < n; i++) if (!ran[i]) { if (at[i] <= tm) due[nd++] = i; else if (first < 0 || at[i] < first) first = at[i]; }
      if (op >= 2) { int from = nord; while (t->pump()) CHECK(nord <= from + nd, "too many events"); CHECK(nord == from + nd, "an event which is due was not run"); for (int i = 0; i < nd; i++) CHECK(ran[due[i]] == 1, "an event was run before its time");
        for (int i = from + 1; i < nord; i++) { int a = order[i - 1], b = order[i]; if (!plain[a] && !plain[b]) CHECK(at[a] < at[b] || (at[a] == at[b] && a < b), "events run in another order than their times"); if (plain[a] && plain[b]) CHECK(a < b, "messages run in another order than posted"); }
        natural w = t->wait(); CHECK(first < 0 ? w == naturalNull : w == (natural)(first - tm), "time until the next event"); }
      else { natural w = t->wait(); if (nd) CHECK(w == 0, "something is due"); else CHECK(first < 0 ? w == naturalNull : w == (natural)(first - tm), "time until the next event"); } }
    if (pick(2, "cancelled") && n) { MsgQueue::FlushMsg z; t->waitForFinishMsg(z); CHECK(t->pump() && (bool)z, "flush of a scheduler"); for (int i = 0; i < n; i++) CHECK(ran[i] + rej[i] == 1, "a flushed event is rejected"); CHECK(t->empty() && t->length() == 0, "the queue is empty after flush"); }
    delete t; }
  for (int i = 0; i < n; i++) CHECK(ran[i] + rej[i] == 1, "an event is run or rejected exactly once");
  mtEnd(); lsx_reach("done");
}
#ifndef MTREAL
// producers in several threads, one consumer
struct Prod : MtJob { TQ* q; int first, cnt; int pr; int how; void run() {
    for (int i = 0; i < cnt; i++) { if (pr) q->postPriorityMessage(new M(first + i)); else q->postMessage(new M(first + i)); }
    MsgQueue::AbstractMsg* last = 0; (void)last;
    if (how == 1) q->syncToQueue(); else if (how == 2) q->flush(); else if (how == 3) { MsgQueue::AbstractMsg* c = new M(first + cnt); q->postMessage(c); q->cancelMessage(c); CHECK(don[first + cnt] == 1, "cancelMessage() returned before the message was cancelled or run"); }
    if (how == 1 || how == 2) { Quiet z; for (int i = 0; i < cnt; i++) CHECK(don[first + i] == 1, "waiting for the queue returned before the messages posted before were done"); }
    lsx_nosched(1); q->told += 100; lsx_nosched(0); } };
#ifndef NT
#define NT 2
#endif
#ifndef CNT
#define CNT 1
#endif
extern "C" void h_msgqmt() {
  resetLog(); TQ* q = new TQ; Prod p[3]; int all = 0; for (int i = 0; i < NT; i++) { p[i].q = q; p[i].first = 4 * i; p[i].cnt = CNT; p[i].pr = pick(2, "priority"); p[i].how = pick(4, "then"); all += CNT + (p[i].how == 3); }
  mtStart(&p[0], NT > 1 ? &p[1] : 0, NT > 2 ? &p[2] : 0);
  for (;;) { int t = q->told; if (q->pump()) { CHECK((integer)q->length() >= 0, "length of the queue below zero"); continue; } if (t / 100 == NT) break; if (q->told == t) lsx_block(&q->told, 4, t, 0, 0); }
  mtJoin(NT); CHECK(q->empty() && q->length() == 0, "messages left in the queue"); lsx_nosched(1);
  for (int i = 0; i < NT; i++) { int k = 4 * i, n = CNT + (p[i].how == 3); for (int j = 0; j < n; j++) CHECK(don[k + j] == 1 && ran[k + j] + rej[k + j] == 1, "a message was lost"); }
  bool flush = false; for (int i = 0; i < NT; i++) if (p[i].how == 2) flush = true;
  for (int i = 0; i < NT; i++) { int k = 4 * i; if (!flush) for (int j = 0; j < CNT; j++) CHECK(ran[k + j] == 1, "a message was rejected without a reason"); int l = -1; if (!p[i].pr) for (int j = 0; j < nord; j++) if (order[j] / 4 == i) { CHECK(order[j] > l, "messages of one thread run in another order than posted"); l = order[j]; } }
  delete q; lsx_nosched(0); lsx_reach("done");
}
#else
struct TApp : public IApp {
  virtual integer start(const Args&) { return 0; } virtual bool stop() { return true; }
  virtual TypeInfo getInterfaceType() const { return typeid(IApp); } virtual void addService(TypeInfo, IInterface*) {} virtual void removeService(TypeInfo) {} virtual void removeService(TypeInfo, IInterface*) {}
  virtual void onException(const Exception&) {} virtual void onThreadException(const Exception&) throw() { lsx_fail("a message thread ended by an exception"); } };
static TApp* app;
namespace LightSpeed { IApp* IApp::currentPtr() { return app; } IApp& IApp::current() { return *app; } void IApp::exceptionDebug(const Exception&, IApp*) {} AppBase& AppBase::current() { throw 1; } }
extern "C" void h_msgthread() {
  lsx_nosched(1); mtBegin(); app = new TApp; resetLog(); int n = 0; unsigned how = pick(4, "end"), cnt = 1 + pick(2, "messages");
  { MsgThread* t = new MsgThread; lsx_nosched(0);
    for (unsigned i = 0; i < cnt; i++) { if (i == 0) t->postMessage(new M(n++)); else t->postPriorityMessage(new M(n++)); }
    if (how == 1) { t->syncToQueue(); Quiet q; for (int i = 0; i < n; i++) CHECK(ran[i] == 1 && don[i] == 1, "a message was not run before the queue was synchronized"); }
    if (how == 2) { t->MsgQueue::finish(); Quiet q; for (int i = 0; i < n; i++) CHECK(don[i] == 1, "finish() left a message"); }
    if (how == 3) { t->flush(); Quiet q; for (int i = 0; i < n; i++) CHECK(don[i] == 1, "flush() left a message"); }
    delete t; { Quiet q; for (int i = 0; i < n; i++) CHECK(ran[i] + rej[i] == 1 && don[i] == 1, "a message was lost"); }
    mtEnd(); lsx_nosched(1); delete app; }
  lsx_nosched(0); lsx_reach("done");
}
// a thread with a scheduler runs events at their time
struct Tv : Ev { natural due; Tv(int i, natural d) : Ev(i), due(d) {} void run() throw() { lsx_nosched(1); CHECK((integer)(SysTime::now().msecs() - due) >= 0, "an event ran before its time"); Ev::run(); lsx_nosched(0); } void reject() throw() { Quiet q; Ev::reject(); } void done() throw() { Quiet q; don[id]++; delete this; } };
extern "C" void h_schedthread() {
  lsx_nosched(1); mtBegin(); app = new TApp; resetLog(); int n = 0; unsigned how = pick(3, "end");
  { SchedulerThread* t = new SchedulerThread; lsx_nosched(0); t->schedule(new Tv(n, SysTime::now().msecs() + 5), 5); n++; if (how < 2) { t->postMessage(new M(n)); n++; }
    if (how == 1) for (int i = 0; i < n; i++) while (!ran[i]) lsx_block(&ran[i], 4, 0, 0, 0);
    if (how == 2) { t->syncToQueue(); t->flush(); }
    delete t; { Quiet q; for (int i = 0; i < n; i++) CHECK(ran[i] + rej[i] == 1, "an event was lost"); } mtEnd(); lsx_nosched(1); delete app; }
  lsx_nosched(0); lsx_reach("done");
}
#endif
