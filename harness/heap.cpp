// heap sort, priority queue, sort filter against a bag of (value, identity) pairs
#include "tr.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/constructor.h"
#include "lightspeed/base/containers/priorityQueue.tcc"
#include "lightspeed/base/iter/sortFilter.tcc"
#include "lightspeed/base/memory/staticAlloc.h"
#include "lightspeed/base/memory/smallAlloc.h"
#include "lightspeed/base/exceptions/container.h"
using namespace LightSpeed;
#ifndef NV
#define NV 5
#endif
#ifndef NS
#define NS 5
#endif
struct It : Tr { unsigned id; It() : id(99) {} It(unsigned v, unsigned i) : Tr(v), id(i) {} };
// bag: which identities are inside, and their values
struct Bag {
  unsigned v[16]; bool in[16]; unsigned n, cnt;
  Bag() : n(0), cnt(0) { for (int i = 0; i < 16; i++) in[i] = false; }
  It mk(const char* name) { v[n] = val(name); in[n] = true; cnt++; return It(v[n], n++); }
  // takes an item out; it must be inside, unchanged and not smaller (up) / not bigger (!up) than any other one inside
  void out(const It& x, bool up) {
    CHECK(x.ok() && x.id < n && in[x.id] && v[x.id] == x.v, "an item which is inside, unchanged");
    int best = 1; for (unsigned i = 0; i < n; i++) if (in[i]) best &= up ? v[i] <= x.v : v[i] >= x.v;
    CHECK(best, "no other item is ahead of the one given"); in[x.id] = false; cnt--;
  }
};
template<typename Cmp> static void sortIt(bool up) {
  int h0 = lsx_live_heap();
  {
    AutoArray<It> a; Bag b; unsigned n = pick(0, NV, "n"); for (unsigned i = 0; i < n; i++) a.add(b.mk("a"));
    typedef HeapSort<AutoArray<It>, Cmp> H; H h(a);
    unsigned k = pick(0, 2, "how");
    if (k == 0) h.sort(); else if (k == 1) { h.makeHeap(); h.sortHeap(); } else { while (h.push()) ; CHECK(h.getSize() == n, "heap size"); while (h.pop()) ; }
    CHECK(a.length() == n && h.empty(), "length");
    for (unsigned i = 0; i < n; i++) b.out(a[i], !up);
    CHECK(Tr::live == (int)n, "items");
  }
  CHECK(Tr::live == 0 && lsx_live_heap() == h0, "nothing left behind"); lsx_reach("done");
}
extern "C" void h_sort() { if (pick(0, 1, "reversed")) sortIt<std::greater<It> >(false); else sortIt<std::less<It> >(true); }
// removal from the middle of a heap, change of the top
extern "C" void h_heapmid() {
  typedef HeapSort<AutoArray<It> > H; AutoArray<It> a; Bag b; unsigned n = pick(1, NV, "n"); for (unsigned i = 0; i < n; i++) a.add(b.mk("a"));
  H h(a); h.makeHeap(); CHECK(h.getSize() == n, "heap size");
  unsigned op = pick(0, 2, "op");
  if (op == 0) { unsigned at = pick(0, n, "at"); if (at == n) CHECK(!h.pop(at), "nothing there"); else { unsigned id = a[at].id; CHECK(h.pop(at), "removed"); CHECK(a[n - 1].id == id && a[n - 1].v == b.v[id] && b.in[id], "the removed item is behind the heap"); b.in[id] = false; b.cnt--; a.trunc(); } }
  else if (op == 1) { b.in[a[0].id] = false; b.cnt--; a(0) = b.mk("new top"); h.shiftDown(); }
  else { It x = b.mk("x"); b.in[x.id] = false; b.cnt--; int better = 1; for (unsigned i = 0; i < n; i++) better &= b.v[i] < x.v; CHECK(h.isBetter(x) == (better != 0), "isBetter"); }
  while (b.cnt) { CHECK(h.getSize() == b.cnt, "heap size"); It t = h.top(); b.out(t, true); h.pop(); CHECK(a[h.getSize()].id == t.id, "popped item is behind the heap"); }
  CHECK(h.empty() && !h.pop(), "empty"); lsx_reach("done");
}
template<typename Q> static void drain(Q& q, Bag& b, bool up) {
  while (b.cnt) { CHECK(q.length() == b.cnt && !q.empty(), "length"); It t = q.top(); b.out(t, up); q.pop(); }
  CHECK(q.empty() && q.length() == 0, "empty");
}
template<typename Q> static void queueOps(bool up) {
  int h0 = lsx_live_heap();
  {
    Q q; Bag b;
    for (unsigned s = 0; s < NS; s++) {
      switch (pick(0, 3, "op")) {
        case 0: case 1: q.push(b.mk("v")); break;
        case 2: if (b.cnt) { It t = q.top(); b.out(t, up); q.pop(); } break;
        default: { Q c(q); Bag d = b; drain(c, d, up); c.push(It(1, 15)); if (pick(0, 1, "assign")) { c = q; d = b; c.push(d.mk("w")); drain(c, d, up); } } break;
      }
      CHECK(Tr::live == (int)b.cnt && q.length() == b.cnt, "items");
    }
    if (pick(0, 1, "clear")) { q.clear(); CHECK(q.empty() && Tr::live == 0, "cleared"); b = Bag(); q.push(b.mk("after clear")); }
    drain(q, b, up);
  }
  CHECK(Tr::live == 0 && lsx_live_heap() == h0, "nothing left behind"); lsx_reach("done");
}
extern "C" void h_pq() {
  unsigned k = pick(0, 2, "kind");
  if (k == 0) queueOps<PriorityQueue<It> >(true); else if (k == 1) queueOps<PriorityQueue<It, std::greater<It> > >(false); else queueOps<PriorityQueue<It, std::less<It>, SmallAlloc<2> > >(true);
}
// sort filter: gives what is inside in order; one with a limited buffer gives the best of what is inside
template<typename F> static void flt(unsigned cap) {
  int h0 = lsx_live_heap();
  {
    F f; Bag b;
    for (unsigned s = 0; s < NS; s++) {
      CHECK(f.hasItems() == (b.cnt > 0), "hasItems"); if (b.cnt < cap) CHECK(f.needItems(), "room for more");
      unsigned op = pick(0, 2, "op");
      if (op == 0) { if (f.needItems()) f.input(b.mk("v")); } else if (op == 1) { if (b.cnt) { It t = f.output(); b.out(t, true); } else { bool e = false; try { f.output(); } catch (Exception&) { e = true; } CHECK(e, "nothing to give"); } }
      else { F c(f); Bag d = b; while (d.cnt) { It t = c.output(); d.out(t, true); } CHECK(!c.hasItems(), "copy is empty"); if (c.needItems()) c.input(It(3, 15)); }
    }
    while (b.cnt) { CHECK(f.hasItems(), "hasItems"); It t = f.output(); b.out(t, true); }
    CHECK(!f.hasItems() && Tr::live == 0, "all given");
  }
  CHECK(lsx_live_heap() == h0, "nothing left behind"); lsx_reach("done");
}
extern "C" void h_sortflt() { if (pick(0, 1, "limited")) flt<SortFilter<It, std::less<It>, StaticAlloc<2> > >(2); else flt<SortFilter<It> >(99); }
