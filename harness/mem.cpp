// Ownership and allocators: an object lives exactly as long as it is referenced, blocks never overlap and all memory is given back
#include "mt.h"
#include "lightspeed/base/memory/refCntPtr.h"
#include "lightspeed/base/memory/sharedPtr.h"
#include "lightspeed/base/memory/weakref.h"
#include "lightspeed/base/memory/ownedPointer.h"
#include "lightspeed/base/memory/clusterAlloc.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/base/memory/poolalloc.h"
#include "lightspeed/base/memory/smallAlloc.h"
#include "lightspeed/base/memory/singleton.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/mt/slist.h"
using namespace LightSpeed;
#ifndef NS
#define NS 4
#endif
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
static volatile int dummy;
// ---- reference counting: model of who refers to what
static int alive[8];
struct Obj : public RefCntObj { int id; Obj(int i) : id(i) { CHECK(!alive[i], "constructed twice"); alive[i] = 1; } virtual ~Obj() { CHECK(alive[id] == 1, "destroyed twice"); alive[id] = 2; } };
struct Obj2 : public Obj { Obj2(int i) : Obj(i) {} };
extern "C" void h_ref() {
  int ids = 0; { RefCntPtr<Obj> p[3]; int m[3] = {-1, -1, -1}; int hold[8] = {0};
  for (int st = 0; st < NS; st++) { unsigned op = pick(10, "op"), i = pick(3, "i"), j = (i + 1 + (op == 1 || op == 2 ? pick(2, "j") : 0)) % 3;
    switch (op) {
      case 0: p[i] = new Obj(ids); m[i] = ids++; break;
      case 1: p[i] = p[j]; m[i] = m[j]; break;
      case 2: { RefCntPtr<Obj> t(p[i]); p[j] = t.getMT(); m[j] = m[i]; break; }
      case 3: p[i] = nil; m[i] = -1; break;
      case 4: p[i].clear(); m[i] = -1; break;
      case 5: { RefCntPtr<Obj2> t(new Obj2(ids)); CHECK(!t.isShared(), "a new object is shared"); p[i] = t.get(); CHECK(t.isShared(), "isShared()"); m[i] = ids++; break; }
      case 6: if (m[i] >= 0) { p[i].manualAddRef(); hold[m[i]]++; CHECK(p[i].isShared(), "isShared()"); } break;
      case 7: if (m[i] >= 0 && hold[m[i]]) { p[i].manualRelease(); hold[m[i]]--; } break;
      case 9: if (m[i] >= 0 && !p[i].isShared()) { Obj* raw = p[i].detach(); CHECK(raw && raw->id == m[i] && alive[m[i]] == 1 && p[i] == nil, "detached object"); RefCntPtr<Obj> t; t.attach(raw); CHECK(!t.isShared(), "isShared()"); p[i] = t; CHECK(t.isShared(), "isShared()"); } break;
      case 8: std::swap(p[i], p[j]); { int t = m[i]; m[i] = m[j]; m[j] = t; } break;
    }
    for (int k = 0; k < ids; k++) { int n = hold[k]; for (int q = 0; q < 3; q++) n += m[q] == k; CHECK(alive[k] == (n ? 1 : 2), "object lives exactly as long as somebody refers to it"); }
    for (int q = 0; q < 3; q++) { CHECK((p[q] == nil) == (m[q] < 0), "null"); if (m[q] >= 0) { CHECK(p[q]->id == m[q], "refers to its object"); int n = hold[m[q]]; for (int r = 0; r < 3; r++) n += m[r] == m[q]; CHECK(p[q].isShared() == (n > 1), "isShared()"); } }
  }
  for (int q = 0; q < 3; q++) if (m[q] >= 0) while (hold[m[q]]) { p[q].manualRelease(); hold[m[q]]--; }
  for (int k = 0; k < ids; k++) if (hold[k]) lsx_stop_path(); }
  for (int k = 0; k < ids; k++) CHECK(alive[k] == 2, "object leaked"); lsx_reach("done");
}
struct Plain { int id; Plain(int i) : id(i) { alive[i] = 1; } ~Plain() { CHECK(alive[id] == 1, "destroyed twice"); alive[id] = 2; } };
extern "C" void h_shared() {
  int ids = 0; { SharedPtr<Plain> p[3]; int m[3] = {-1, -1, -1};
  for (int st = 0; st < NS; st++) { unsigned op = pick(6, "op"), i = pick(3, "i"), j = (i + pick(3, "j")) % 3;
    switch (op) {
      case 0: p[i] = SharedPtr<Plain>(new Plain(ids)); m[i] = ids++; break;
      case 1: p[i] = p[j]; m[i] = m[j]; break;
      case 2: { SharedPtr<Plain> t(p[i]); p[j] = t; m[j] = m[i]; break; }
      case 3: p[i] = SharedPtr<Plain>(nil); m[i] = -1; break;
      case 4: { SharedPtr<Plain> t(p[i]); SharedPtr<Plain> u(t); t = p[j]; break; }
      case 5: if (m[i] >= 0) { p[i].redirect(p[i].get()); } break;
    }
    for (int k = 0; k < ids; k++) { int n = 0; for (int q = 0; q < 3; q++) n += m[q] == k; CHECK(alive[k] == (n ? 1 : 2), "object lives exactly as long as somebody refers to it"); }
    for (int q = 0; q < 3; q++) { CHECK((p[q] == nil) == (m[q] < 0), "null"); if (m[q] >= 0) { CHECK(p[q]->id == m[q], "refers to its object"); natural n = 0; for (int r = 0; r < 3; r++) n += m[r] == m[q]; CHECK(p[q].isShared() == (n > 1) && p[q].count() == n, "count of references"); } }
  } }
  for (int k = 0; k < ids; k++) CHECK(alive[k] == 2, "object leaked"); lsx_reach("done");
}
// owner of a pointer: exactly one OwnedPtr releases it
extern "C" void h_owned() {
  { OwnedPtr<Plain> a(new Plain(0)); OwnedPtr<Plain> b; CHECK(a.isOwned() && !b.isOwned(), "ownership"); unsigned op = pick(6, "op");
    switch (op) { case 0: { OwnedPtr<Plain> c(a); CHECK(c.isOwned() && !a.isOwned(), "copy takes ownership"); break; } case 1: { OwnedPtr<Plain> c(a, OwnedPtr<Plain>::notOwned); CHECK(a.isOwned() && !c.isOwned(), "reference"); } CHECK(alive[0] == 1, "alive"); break;
      case 2: b = a; CHECK(a.isOwned() && !b.isOwned() && b->id == 0, "assignment"); break; case 3: b <<= a; CHECK(!a.isOwned() && b.isOwned() && b->id == 0, "ownership moves"); break; case 4: { Plain* x = a.detach(); CHECK(!a.isOwned(), "detach"); delete x; break; } case 5: { OwnedPtr<Plain> c(new Plain(1), StdFactory::Factory<Plain>()); a.swap(c); CHECK(a->id == 1 && c->id == 0 && a.isOwned() && c.isOwned(), "swap"); break; } } }
  CHECK(alive[0] == 2 && alive[1] != 1, "leaked"); lsx_reach("done");
}
// ---- threads
static int created, destroyed; struct MObj : public RefCntObj { int val; MObj() : val(7) { created++; } ~MObj() { destroyed++; val = 0; } };
struct RJ : MtJob { RefCntPtr<MObj> mine; int how; void run() { switch (how) { case 0: { RefCntPtr<MObj> a(mine), b(a); CHECK(b->val == 7, "alive"); break; } case 1: { RefCntPtr<MObj> a; a = mine; mine = nil; CHECK(a->val == 7, "alive"); break; } default: { mine.manualAddRef(); CHECK(mine->val == 7, "alive"); mine.manualRelease(); } } mine = nil; } };
extern "C" void h_refmt() { RJ t[3]; { RefCntPtr<MObj> p(new MObj); for (int i = 0; i < 3; i++) { t[i].mine = p; t[i].how = pick(3, "how"); } } mtStart(&t[0], &t[1], &t[2]); mtJoin(3); CHECK(created == 1 && destroyed == 1, "object is destroyed exactly once, by the last one"); lsx_reach("done"); }
// weak reference: while it is locked, the target waits with its destruction
static volatile int targetAlive, using_; static int gotAlive, gotNull;
struct Tgt { WeakRefTarget<Tgt> wr; int val; Tgt() : wr(this), val(7) { targetAlive = 1; } ~Tgt() { wr.setNull(); lsx_nosched(1); CHECK(using_ == 0, "target is destroyed although it is locked"); targetAlive = 0; val = 0; lsx_nosched(0); } };
struct WU : MtJob { WeakRef<Tgt> ref; int rounds; void run() { for (int i = 0; i < rounds; i++) { WeakRefPtr<Tgt> p = ref.lock(); if (p == nil) { lsx_nosched(1); gotNull++; lsx_nosched(0); } else { lsx_nosched(1); CHECK(targetAlive, "locked reference to a destroyed target"); using_++; lsx_nosched(0); lsx_sched_point(&dummy, 1); CHECK(p->val == 7, "locked reference to a destroyed target"); if (i == 0) { WeakRefPtr<Tgt> q(p); CHECK(q == nil || q->val == 7, "copy"); } lsx_nosched(1); using_--; gotAlive++; lsx_nosched(0); } } } };
struct WD : MtJob { Tgt* t; void run() { delete t; } };
#ifndef NW
#define NW 1
#endif
extern "C" void h_weak() { WU u[2]; WD d; d.t = new Tgt; for (int i = 0; i < NW; i++) { u[i].ref = d.t->wr; u[i].rounds = 2; } if (NW > 1) mtStart(&u[0], &u[1], &d); else mtStart(&u[0], &d); mtJoin(NW + 1); CHECK(gotAlive + gotNull == 2 * NW, "rounds"); { WeakRefPtr<Tgt> p = u[0].ref.lock(); CHECK(p == nil, "reference to a destroyed target"); } lsx_reach("done"); }
extern "C" void h_weak1() { mtBegin(); Tgt* t = new Tgt; WeakRef<Tgt> a = t->wr, b(a); { WeakRefPtr<Tgt> p = a.lock(), q = b.lock(); CHECK(p != nil && q != nil && p.get() == t && q.get() == t, "lock"); } unsigned op = pick(3, "op"); Tgt o; if (op == 0) delete t; else if (op == 1) t->wr.setNull(); else { t->wr = &o; WeakRef<Tgt> c = t->wr; WeakRefPtr<Tgt> p = c.lock(); CHECK(p.get() == &o, "new target"); } { WeakRefPtr<Tgt> p = a.lock(); CHECK(p == nil, "old target"); WeakRef<Tgt> z(b); WeakRefPtr<Tgt> q = z.lock(); CHECK(q == nil, "old target"); } if (op) delete t; mtEnd(); lsx_reach("done"); }
// lock-free list: every pushed item is popped exactly once
struct Node { natural v; Node* next; };
struct SLJ : MtJob { static SList<Node>* l; Node* my[2]; int take, got; natural sum; void run() { if (my[0]) l->push(my[0]); if (my[1]) l->push(my[1]); for (int i = 0; i < take; i++) { Node* n = l->pop(); if (n) { got++; sum += n->v; if (i == 0 && take == 3) { l->push(n); got--; sum -= n->v; } } } } };
SList<Node>* SLJ::l;
extern "C" void h_slist() {
  static Node __attribute__((aligned(32))) nd[5]; SList<Node> l; SLJ::l = &l; SLJ t[2]; for (int i = 0; i < 5; i++) { nd[i].v = 1 << i; nd[i].next = 0; } bool pre = pick(2, "pre"); if (pre) { l.push(&nd[4]); }
  for (int i = 0; i < 2; i++) { t[i].got = 0; t[i].sum = 0; t[i].my[0] = &nd[2 * i]; t[i].my[1] = i == 0 ? &nd[1] : 0; t[i].take = 1 + pick(3, "take"); } mtStart(&t[0], &t[1]); mtJoin(2);
  natural sum = t[0].sum + t[1].sum; CHECK(l.empty() == (l.top() == 0), "empty()"); int n = 0; for (Node* x; (x = l.pop()) != 0; n++) { CHECK(n < 5, "list is cyclic"); sum += x->v; } CHECK(sum == 7u + (pre ? 16 : 0), "every item is popped exactly once"); CHECK(n + t[0].got + t[1].got == 3 + pre, "count"); CHECK(l.empty(), "empty"); lsx_reach("done");
}
// singleton: constructed once, everybody gets the constructed one
static int constructed; struct Sing { int v; Sing() { constructed++; lsx_sched_point(&dummy, 1); v = 7; } };
struct SJ : MtJob { void run() { Sing& s = Singleton<Sing>::getInstance(); CHECK(s.v == 7, "instance is used before it is constructed"); } };
extern "C" void h_singleton() { SJ a, b, c; mtStart(&a, &b, &c); mtJoin(3); CHECK(constructed == 1, "constructed once"); lsx_reach("done"); }
// ---- allocators: blocks do not overlap, keep their content, all memory is returned
struct Blk { byte* p; natural sz; IRuntimeAlloc* owner; byte pat; };
static void fillB(Blk& b) { for (natural i = 0; i < b.sz; i++) b.p[i] = b.pat; }
static void checkB(const Blk& b) { bool eq = true; for (natural i = 0; i < b.sz; i++) eq &= b.p[i] == b.pat; CHECK(eq, "block is overwritten"); }
static void allocSeq(IRuntimeAlloc& al, const natural* sizes, unsigned ns, unsigned pre, natural psz) {
  Blk b[16]; unsigned n = 0; byte pat = 1; for (unsigned i = 0; i < pre; i++) { b[n].sz = psz; b[n].owner = 0; b[n].p = (byte*)al.alloc(psz, b[n].owner); b[n].pat = pat++; fillB(b[n]); n++; }
  for (int st = 0; st < NS; st++) { unsigned op = pick(n ? 3 : 1, "op");
    if (op == 0) { natural sz = sizes[pick(ns, "size")]; CHECK(n < 16, "model"); b[n].sz = sz; b[n].pat = pat++; b[n].owner = 0; if (pick(2, "owner")) { b[n].p = (byte*)al.alloc(sz, b[n].owner); CHECK(b[n].owner != 0, "owner"); } else b[n].p = (byte*)al.alloc(sz); CHECK(((natural)b[n].p & (sz >= 8 ? 7 : sz >= 4 ? 3 : 0)) == 0, "alignment"); for (unsigned k = 0; k < n; k++) CHECK(b[n].p + sz <= b[k].p || b[k].p + b[k].sz <= b[n].p || !sz || !b[k].sz, "blocks overlap"); fillB(b[n]); n++; }
    else { unsigned w = n == 1 ? 0 : pick(n > 3 ? 3 : n, "which"); if (w == 2) w = n - 1; Blk x = b[w]; checkB(x); if (op == 1) al.dealloc(x.p, x.sz); else (x.owner ? x.owner : &al)->dealloc(x.p, x.sz); for (unsigned k = w + 1; k < n; k++) b[k - 1] = b[k]; n--; }
    for (unsigned k = 0; k < n; k++) checkB(b[k]); }
  while (n) { n--; checkB(b[n]); if (b[n].owner && (n & 1)) b[n].owner->dealloc(b[n].p, b[n].sz); else al.dealloc(b[n].p, b[n].sz); for (unsigned k = 0; k < n; k++) checkB(b[k]); }
}
#ifndef PRE
#define PRE 3
#endif
extern "C" void h_cluster() { static const natural sizes[] = {24, 36, 5, 0}; { ClusterAlloc al; allocSeq(al, sizes, 4, PRE, 36); bool leak = false; try { al.clear(); } catch (const MemoryLeakException&) { leak = true; } CHECK(!leak, "leak reported although everything was given back"); } lsx_reach("done"); }
extern "C" void h_clusterleak() { bool leak = false; unsigned n = pick(5, "blocks"), f = n ? pick(n + 1, "freed") : 0; { ClusterAlloc al; void* p[5]; for (unsigned i = 0; i < n; i++) p[i] = al.alloc(24); for (unsigned i = 0; i < f; i++) al.dealloc(p[i], 24); try { al.clear(); } catch (const MemoryLeakException&) { leak = true; } } CHECK(leak == (f < n), "leak is reported exactly when a block was not given back"); lsx_reach("done"); }
extern "C" void h_pool() { static const natural sizes[] = {3, 24, 40}; { PoolAlloc al; allocSeq(al, sizes, 3, 1, 24); } lsx_reach("done"); }
extern "C" void h_inbuffer() {
  byte buf[64]; for (int i = 0; i < 64; i++) buf[i] = 0xEE; { AllocInBuffer al(buf + 8, 48); natural used = 0; struct { byte* p; natural s; } b[8]; unsigned n = 0;
  for (int st = 0; st < NS; st++) { if (n == 0 || pick(2, "op") == 0) { natural sz = lsx_sym(64, "size"); bool thr = false; void* p = 0; try { p = al.alloc(sz); } catch (const std::exception&) { thr = true; } catch (const Exception&) { thr = true; } CHECK(thr == (sz > 48 - used), "refused exactly when there is no room"); if (thr) continue; CHECK(p == buf + 8 + used, "place"); b[n].p = (byte*)p; b[n++].s = sz; used += sz; }
    else { n--; al.dealloc(b[n].p, b[n].s); used -= b[n].s; } } } for (int i = 0; i < 8; i++) CHECK(buf[i] == 0xEE && buf[56 + i] == 0xEE, "outside"); lsx_reach("done");
}
// objects allocated through an allocator return to it, also when the constructor throws
struct Dyn : public DynObject { int x; bool* dead; Dyn(bool* d, bool thr) : x(5), dead(d) { if (thr) throw 1; } virtual ~Dyn() { *dead = true; } }; struct DynBig : public Dyn { char more[13]; DynBig(bool* d, bool t) : Dyn(d, false) { for (int i = 0; i < 13; i++) more[i] = 9; if (t) throw 2; } };
struct CAl : public IRuntimeAlloc { int live; natural size[8]; void* ptr[8]; unsigned cnt; CAl() : live(0), cnt(0) {}
  void* alloc(natural sz) { CHECK(cnt < 8, "model"); void* p = ::operator new(sz ? sz : 1); ptr[cnt] = p; size[cnt++] = sz; live++; return p; }
  void dealloc(void* p, natural sz) { unsigned i = 0; while (i < cnt && ptr[i] != p) i++; CHECK(i < cnt, "block given back to an allocator it did not come from, or twice"); CHECK(size[i] == sz, "block given back with another size"); ptr[i] = 0; live--; ::operator delete(p); }
  void* alloc(natural sz, IRuntimeAlloc*& owner) { owner = this; return alloc(sz); }
  natural getObjectSize() const { return sizeof(CAl); } CAl* clone(IRuntimeAlloc&) const { return 0; } CAl* clone() const { return 0; } };
extern "C" void h_dyn() { CAl al; bool dead = false; bool big = pick(2, "big"), thr = pick(2, "throws"), own = pick(2, "allocator"); Dyn* d = 0; bool got = false;
  try { if (own) { if (big) d = new(DynObjectAllocHelper(al)) DynBig(&dead, thr); else d = new(DynObjectAllocHelper(al)) Dyn(&dead, thr); } else { if (big) d = new DynBig(&dead, thr); else d = new Dyn(&dead, thr); } } catch (int) { got = true; }
  CHECK(got == thr, "exception"); if (!thr) { CHECK(al.live == (own ? 1 : 0), "allocator"); CHECK(d->x == 5, "object"); delete d; CHECK(dead, "destroyed"); } CHECK(al.live == 0, "block of the object leaked"); lsx_reach("done"); }
// arrays in small blocks keep the allocator with the block
extern "C" void h_small() { CAl al; { typedef AutoArray<int, SmallAlloc<2> > A; A a((SmallAlloc<2>(al))), b; int ra = 0, rb = 0; for (int st = 0; st < NS; st++) { unsigned op = pick(4, "op"); if (op == 0 && ra < 4) { a.add(ra); ra++; } else if (op == 1 && rb < 4) { b.add(100 + rb); rb++; } else if (op == 2) { a.clear(); ra = 0; } else if (op == 3 && ra) { a.resize(ra - 1); ra--; }
    CHECK(a.length() == (natural)ra && b.length() == (natural)rb, "length"); for (int i = 0; i < ra; i++) CHECK(a[i] == i, "content"); for (int i = 0; i < rb; i++) CHECK(b[i] == 100 + i, "content"); } } CHECK(al.live == 0, "leak"); lsx_reach("done"); }
