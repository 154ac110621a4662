// Events built on synchronization points: no notification is lost, none is given twice, nothing is touched after it has gone
#include "mt.h"
#include "lightspeed/mt/syncPt.h"
#include "lightspeed/mt/semaphore.h"
#include "lightspeed/mt/gate.h"
#include "lightspeed/mt/mutex.h"
#include "lightspeed/mt/notifier.h"
using namespace LightSpeed;
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
static volatile int dummy; static int total, inside, cap;
static void enter() { lsx_nosched(1); CHECK(inside < cap, "too many threads inside"); inside++; lsx_nosched(0); lsx_sched_point(&dummy, 1); }
static void leave() { lsx_nosched(1); inside--; total++; lsx_nosched(0); }
#ifndef NT
#define NT 2
#endif
#ifndef NS
#define NS 5
#endif
// semaphore: never more holders than permits, no permit lost
struct SE : MtJob { static Semaphore* sm; int how; void run() {
    switch (how) { case 0: sm->lock(); break; case 1: if (!sm->tryLock()) return; break; case 2: if (!sm->lock(Timeout(10))) return; break; case 5: CHECK(sm->lock(SyncPt::uninterruptible), "wait without limit fails"); break;
      default: { SyncPt::Slot s; sm->lockAsync(s); if (!s) { sm->cancelLockAsync(s); return; } if (how == 4) { sm->cancelLockAsync(s); return; } break; } }
    enter(); leave(); sm->unlock(); } };
Semaphore* SE::sm;
extern "C" void h_semaphore() {
  cap = 1 + pick(2, "permits"); Semaphore s(cap); SE::sm = &s; SE t[3]; int need = 0; for (int i = 0; i < NT; i++) { t[i].how = pick(6, "how"); if (!t[i].how || t[i].how == 5) need++; } mtStart(&t[0], &t[1], NT > 2 ? &t[2] : 0); mtJoin(NT);
  CHECK(total >= need, "all entered"); for (int i = 0; i < cap; i++) CHECK(s.tryLock(), "permit lost"); CHECK(!s.tryLock(), "permit too many"); lsx_reach("done");
}
// mutex: recursive, timed, asynchronous
struct MU : MtJob { static Mutex* mx; int how; void run() {
    switch (how) { case 0: mx->lock(); break; case 1: if (!mx->tryLock()) return; break; case 2: if (!mx->lock(Timeout(10))) return; break; 
      case 3: { Mutex::WaitPt::Slot s; if (!mx->lockAsync(s)) { if (!s) { mx->cancelAsync(s); if (!s) return; return; } } CHECK((bool)s, "locked, but the slot is not signaled"); break; }
      default: { Mutex::WaitPt::Slot s; if (!mx->lockAsync(s)) SyncPt::wait(s, nil); CHECK((bool)s, "slot is not signaled"); break; } }
    enter(); CHECK(mx->getOwner() == ThreadId::current().asAtomic(), "owner"); if (how != 3) { CHECK(mx->lock(Timeout(1)), "owner cannot lock again"); mx->unlock(); lsx_sched_point(&dummy, 1); } leave(); mx->unlock(); } };
Mutex* MU::mx;
extern "C" void h_mutex() {
  cap = 1; Mutex m; MU::mx = &m; MU t[3]; for (int i = 0; i < NT; i++) t[i].how = pick(5, "how"); mtStart(&t[0], &t[1], NT > 2 ? &t[2] : 0); mtJoin(NT);
  CHECK(m.tryLock(), "mutex is not free at the end"); m.unlock(); CHECK(m.getOwner() == 0, "free"); lsx_reach("done");
}
// gate: who waits passes once it is open
struct GA : MtJob { static Gate* g; int how; void run() { if (how == 0) { CHECK(g->wait(nil), "wait without limit fails"); CHECK(g->isOpened(), "passed a closed gate"); } else if (how == 1) { if (!g->wait(Timeout(10))) return; CHECK(g->isOpened(), "passed a closed gate"); } else { SyncPt::Slot s; g->waitAsync(s); if (!SyncPt::wait(s, Timeout(10)) && g->cancelWaitAsync(s)) return; CHECK((bool)s, "neither cancelled nor signaled"); CHECK(g->isOpened(), "passed a closed gate"); } } };
Gate* GA::g;
struct GO : MtJob { bool hold; void run() { GA::g->open(); } };
extern "C" void h_gate() { Gate g; GA::g = &g; GA t[2]; GO o; for (int i = 0; i < NT; i++) t[i].how = pick(3, "how"); if (NT > 1) mtStart(&t[0], &t[1], &o); else mtStart(&t[0], &o); mtJoin(NT + 1); g.close(); CHECK(!g.isOpened(), "closed"); SyncPt::Slot s; g.waitAsync(s); CHECK(!s, "signaled by a closed gate"); CHECK(g.cancelWaitAsync(s), "cannot cancel"); g.open(); CHECK(!s, "signaled after it was cancelled"); lsx_reach("done"); }
// synchronization point: each notification reaches exactly one waiting slot; a slot can be used again
struct WA : MtJob { static SyncPt* sp; static int waiting, got, timeouts; int rounds; bool timed; void run() { SyncPt::Slot s; for (int i = 0; i < rounds; i++) {
    CHECK(sp->add(s), "slot cannot be registered"); CHECK(!sp->add(s), "slot registered twice"); bool ok = SyncPt::wait(s, timed ? Timeout(10) : Timeout()); if (!ok && !sp->remove(s)) { CHECK((bool)s, "slot is neither signaled nor registered"); ok = true; }
    lsx_nosched(1); if (ok) got++; else timeouts++; lsx_nosched(0); if (ok) CHECK(s.reset(), "signaled"); CHECK(!s, "slot is signaled after reset"); } } };
SyncPt* WA::sp; int WA::waiting, WA::got, WA::timeouts;
struct NO : MtJob { int sent; bool all; int goal; void run() { sent = 0; while (WA::got + WA::timeouts < goal) { if (all ? WA::sp->notifyAll() : WA::sp->notifyOne()) { lsx_nosched(1); sent++; lsx_nosched(0); } lsx_yield(); } } };
extern "C" void h_syncpt() {
  SyncPt sp(pick(2, "stack") ? SyncPt::stack : SyncPt::queue); WA::sp = &sp; WA t[2]; NO n; int goal = 0; for (int i = 0; i < NT; i++) { t[i].timed = pick(2, "timed"); t[i].rounds = 1 + pick(2, "rounds"); goal += t[i].rounds; } n.all = pick(2, "all"); n.goal = goal;
  if (NT > 1) mtStart(&t[0], &t[1], &n); else mtStart(&t[0], &n); mtJoin(NT + 1); CHECK(sp.empty(), "slot left registered"); CHECK(WA::got + WA::timeouts == goal, "waits"); if (!n.all) CHECK(n.sent == WA::got, "notification lost or duplicated"); lsx_reach("done");
}
// order of notifications, removal from any place
#ifndef SL
#define SL 4
#endif
extern "C" void h_order() {
  mtBegin(); bool st = pick(2, "stack"); SyncPt sp(st ? SyncPt::stack : SyncPt::queue); SyncPt::Slot s[SL]; bool in[SL] = {}, sig[SL] = {}; int ord[SL + 1], n = 0;
  unsigned pre = pick(SL + 1, "before"); for (unsigned i = 0; i < pre; i++) { CHECK(s[i].reset() == false && sp.add(s[i]), "add"); in[i] = true; ord[n++] = i; }
  for (int step = 0; step < NS; step++) { unsigned op = pick(4, "op"), i = op < 2 ? pick(SL, "slot") : 0;
    if (op == 0) { bool ok = sp.add(s[i]); CHECK(ok == (!in[i] && !sig[i]), "add() accepts a slot which is not registered and not signaled"); if (ok) { in[i] = true; ord[n++] = i; } }
    else if (op == 1) { bool ok = sp.remove(s[i]); CHECK(ok == in[i], "remove() tells whether the slot was registered"); if (ok) { in[i] = false; int k = 0; for (int j = 0; j < n; j++) if (ord[j] != (int)i) ord[k++] = ord[j]; n = k; } else if (sig[i]) { CHECK(s[i].reset(), "reset"); sig[i] = false; } }
    else if (op == 2) { bool ok = sp.notifyOne(); CHECK(ok == (n > 0), "notifyOne() tells whether there was a slot"); if (ok) { int w = st ? ord[n - 1] : ord[0]; in[w] = false; sig[w] = true; if (!st) for (int j = 1; j < n; j++) ord[j - 1] = ord[j]; n--; } }
    else { CHECK(sp.notifyAll() == (n > 0), "notifyAll() tells whether there was a slot"); for (int j = 0; j < n; j++) { in[ord[j]] = false; sig[ord[j]] = true; } n = 0; }
    for (int j = 0; j < SL; j++) CHECK((bool)s[j] == sig[j], "signaled slots"); CHECK(sp.empty() == (n == 0), "empty()"); }
  lsx_reach("done");
}
// notifier: wakes the thread which made it, forwards the reason
struct NF : MtJob { static Notifier* volatile n; void run() { Notifier x; n = &x; CHECK(x.wait(nil), "wait"); CHECK((bool)x && x.reason == 5, "reason"); } };
Notifier* volatile NF::n;
struct NW : MtJob { void run() { while (!NF::n) lsx_yield(); NF::n->wakeUp(5); } };
extern "C" void h_notifier() { NF a; NW b; mtStart(&a, &b); mtJoin(2); lsx_reach("done"); }
