// Locks: mutual exclusion, no lost wake-up, nothing touched after its owner has gone
#include "mt.h"
#include "lightspeed/mt/fastlock.h"
#include "lightspeed/mt/microlock.h"
#include "lightspeed/mt/spinlock.h"
#include "lightspeed/mt/rwlock.h"
using namespace LightSpeed;
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
#ifndef NT
#define NT 2
#endif
#ifndef NS
#define NS 6
#endif
#ifndef RND
#define RND 1
#endif
static volatile int inside; static int total;
static void enter() { lsx_nosched(1); CHECK(inside == 0, "two threads inside of the lock"); inside = 1; lsx_nosched(0); lsx_sched_point(&inside, 1); }
static void leave() { lsx_nosched(1); CHECK(inside == 1, "two threads inside of the lock"); inside = 0; total++; lsx_nosched(0); }
struct FL : MtJob { static FastLock* lk; int how; void run() { for (int i = 0; i < RND; i++) {
    if (how == 0) lk->lock(); else if (how == 1) { if (!lk->tryLock()) continue; } else { FastLock::Async a(*lk); }
    enter(); leave(); lk->unlock(); } } };
FastLock* FL::lk;
extern "C" void h_fastlock() {
  FastLock l; FL::lk = &l; FL t[3]; for (int i = 0; i < NT; i++) t[i].how = pick(3, "how"); mtStart(&t[0], &t[1], NT > 2 ? &t[2] : 0); mtJoin(NT);
  CHECK(l.tryLock(), "lock is not free at the end"); l.unlock(); int need = 0; for (int i = 0; i < NT; i++) if (t[i].how != 1) need += RND; CHECK(total >= need, "all entered"); lsx_reach("done");
}
struct ML : MtJob { static MicroLock* lk; void run() { for (int i = 0; i < RND; i++) { Synchronized<MicroLock> _(*lk); enter(); leave(); } } };
MicroLock* ML::lk;
extern "C" void h_microlock() { MicroLock l; ML::lk = &l; ML t[3]; mtStart(&t[0], &t[1], NT > 2 ? &t[2] : 0); mtJoin(NT); { Synchronized<MicroLock> _(l); } CHECK(total == NT * RND, "all entered"); lsx_reach("done"); }
// recursive fast lock
struct FR : MtJob { static FastLockR* lk; int how; void run() {
    if (how == 0) { lk->lock(); enter(); lk->lock(); leave(); lk->unlock(); enter(); leave(); lk->unlock(); total--; }
    else if (how == 1) { if (lk->tryLock()) { CHECK(lk->tryLock(), "owner cannot lock again"); enter(); leave(); lk->unlock(); lk->unlock(); } }
    else { lk->lock(); lk->lock(); enter(); leave(); natural n = lk->unlockSaveRecusion(); CHECK(n == 2, "saved recursion"); bool tr = how == 3; bool ok = lk->lockRestoreRecursion(n, tr); CHECK(ok || tr, "cannot restore a free lock"); if (ok) { enter(); leave(); total--; lk->unlock(); lsx_sched_point(&inside, 1); enter(); leave(); total--; lk->unlock(); } } } };
FastLockR* FR::lk;
extern "C" void h_fastlockr() {
  FastLockR l; FR::lk = &l; FR t[2]; for (int i = 0; i < 2; i++) t[i].how = pick(4, "how"); mtStart(&t[0], &t[1]); mtJoin(2);
  CHECK(l.tryLock(), "lock is not free at the end"); l.unlock(); lsx_reach("done");
}
// level lock and read-write lock
static int level, users;
static void enterL(int l) { lsx_nosched(1); CHECK(users == 0 || level == l, "two levels inside of the lock"); level = l; users++; lsx_nosched(0); lsx_sched_point(&inside, 1); }
static void leaveL() { lsx_nosched(1); users--; total++; lsx_nosched(0); }
struct LL : MtJob { static LevelLock* lk; int lv; int how; void run() { for (int i = 0; i < RND; i++) {
    if (how == 0) lk->lock(lv); else if (how == 1) { if (!lk->tryLock(lv)) continue; }
    else { LevelLock::Slot s(getCurrentThread(), lv); lk->lockAsync(s); if (!s.signaled) { lk->cancelAsync(s); continue; } }
    enterL(lv); leaveL(); lk->unlock(); } } };
LevelLock* LL::lk;
extern "C" void h_levellock() {
  LevelLock l; LL::lk = &l; LL t[3]; int need = 0; for (int i = 0; i < NT; i++) { t[i].lv = i ? pick(2, "level") : 0; t[i].how = pick(i == 0 ? 1 : 3, "how"); if (!t[i].how) need += RND; } mtStart(&t[0], &t[1], NT > 2 ? &t[2] : 0); mtJoin(NT);
  CHECK(total >= need, "all entered"); CHECK(l.tryLock(7), "lock is not free at the end"); CHECK(!l.tryLock(8), "another level enters"); CHECK(l.tryLock(7), "the same level does not enter"); l.unlock(); l.unlock(); lsx_reach("done");
}
// asynchronous requests: whatever is locked, requested, cancelled and left in whatever order, one level is inside and nobody is forgotten
struct Nt : ISleepingObject { int n; Nt() : n(0) {} void wakeUp(natural) throw() { n++; } };
extern "C" void h_levelasync() {
  LevelLock l; Nt nt[NS]; char mem[NS][sizeof(LevelLock::Slot)]; LevelLock::Slot* s[NS]; int lv[NS]; bool gone[NS]; int n = 0, direct = 0, dl = 0; 
  for (int k = 0; k < NS; k++) {
    unsigned op = pick(4, "op"); int held = direct, cur = dl; for (int i = 0; i < n; i++) if (!gone[i] && s[i]->signaled) { held++; cur = lv[i]; }
    if (op == 0) { lv[n] = pick(3, "level"); s[n] = new (mem[n]) LevelLock::Slot(&nt[n], lv[n]); gone[n] = false; l.lockAsync(*s[n]); if (!held && l.tryLock(lv[n])) { CHECK(s[n]->signaled, "a free lock refuses a request"); l.unlock(); } n++; }
    else if (op == 1) { if (!n) lsx_stop_path(); int i = pick(n, "cancelled"); if (gone[i]) lsx_stop_path(); l.cancelAsync(*s[i]); CHECK(!s[i]->signaled, "cancelled request holds the lock"); gone[i] = true; }
    else if (op == 2) { int v = pick(3, "level"); bool ok = l.tryLock(v); if (ok) { CHECK(!held || v == cur, "two levels inside of the lock"); direct++; dl = v; } }
    else { if (direct) { direct--; l.unlock(); } else { int i = 0; while (i < n && (gone[i] || !s[i]->signaled)) i++; if (i == n) lsx_stop_path(); gone[i] = true; l.unlock(); } }
    held = direct; cur = dl; for (int i = 0; i < n; i++) if (!gone[i] && s[i]->signaled) { CHECK(!held || lv[i] == cur, "two levels inside of the lock"); held++; cur = lv[i]; } bool wait = false; for (int i = 0; i < n; i++) wait = wait || (!gone[i] && !s[i]->signaled); CHECK(!wait || held, "request waits at a free lock");
  }
  while (direct) { direct--; l.unlock(); } for (int r = 0; r < NS; r++) for (int i = 0; i < n; i++) if (!gone[i] && s[i]->signaled) { gone[i] = true; l.unlock(); } for (int i = 0; i < n; i++) CHECK(gone[i], "request is forgotten");
  CHECK(l.tryLock(7), "lock is not free at the end"); CHECK(!l.tryLock(8), "another level enters"); l.unlock(); lsx_reach("done");
}
struct RW : MtJob { static RWLock* lk; bool wr; int how; void run() { for (int i = 0; i < RND; i++) {
    if (how == 0) { if (wr) lk->lockWrite(); else lk->lockRead(); } else { if (!(wr ? lk->tryLockWrite() : lk->tryLockRead())) continue; }
    if (wr) { lsx_nosched(1); CHECK(users == 0, "writer is not alone"); lsx_nosched(0); } enterL(wr ? 1 + lsx_self() : 0); leaveL(); if (wr) lk->unlockWrite(); else lk->unlockRead(); } } };
RWLock* RW::lk;
extern "C" void h_rwlock() {
  RWLock l; RW::lk = &l; RW t[3]; for (int i = 0; i < NT; i++) { t[i].wr = i == 0 ? true : pick(2, "writer"); t[i].how = pick(2, "how"); } mtStart(&t[0], &t[1], NT > 2 ? &t[2] : 0); mtJoin(NT);
  CHECK(l.tryLockWrite(), "lock is not free at the end"); CHECK(!l.tryLockRead(), "reader enters although a writer is inside"); l.unlockWrite(); CHECK(l.tryLockRead() && l.tryLockRead(), "readers do not share"); l.unlockRead(); l.unlockRead(); lsx_reach("done");
}
// spin locks
template<class L> struct SL : MtJob { static L* lk; static ThreadId* other; bool rec; void run() { static ThreadId me(ThreadId::current()); other = &me; for (int i = 0; i < RND; i++) { lk->lock(); enter(); CHECK(lk->isOwned() && lk->isOwned(ThreadId::current()) && lk->getOwner() == ThreadId::current() && !lk->isUnlocked(), "owner"); if (rec) { CHECK(lk->tryLock(), "owner cannot lock again"); lk->unlock(); lsx_sched_point(&inside, 1); } leave(); lk->unlock(); } } };
template<class L> L* SL<L>::lk; template<class L> ThreadId* SL<L>::other;
template<class L> static void spin(bool rec) { L l; SL<L>::lk = &l; SL<L> t[2]; t[0].rec = t[1].rec = rec; mtStart(&t[0], &t[1]); mtJoin(2); CHECK(total == 2 * RND, "all entered"); CHECK(l.isUnlocked() && l.tryLock() && l.isOwned(), "free at the end"); l.unlock(); CHECK(l.isUnlocked() && !l.isOwned(), "unlocked"); ThreadId me = ThreadId::current(), ot = *SL<L>::other; CHECK(!l.give(ot) && l.isUnlocked(), "given although not owned"); l.lock(); CHECK(l.give(ot) && !l.isOwned() && l.isOwned(ot) && !l.tryLock(), "given to another thread"); CHECK(!l.steal(me) && l.isOwned(ot) && l.steal(ot) && l.isOwned(), "taken over"); l.unlock(); CHECK(l.isUnlocked(), "unlocked"); lsx_reach("done"); }
extern "C" void h_spinlock() { if (pick(2, "recursive")) spin<SpinLockRecursive>(true); else spin<SpinLock>(false); }
