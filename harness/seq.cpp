// sequence containers against a small model
#include "tr.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/deque.tcc"
#include "lightspeed/base/containers/queue.tcc"
#include "lightspeed/base/containers/stack.tcc"
#include "lightspeed/base/containers/linkedList.h"
#include "lightspeed/base/memory/smallAlloc.h"
#include "lightspeed/base/memory/staticAlloc.h"
#include "lightspeed/base/exceptions/outofmemory.h"
#include "lightspeed/base/exceptions/container.h"
using namespace LightSpeed;
typedef SeqT<40> Seq;
#ifndef NS
#define NS 2
#endif
#ifndef CNT
#define CNT 2
#endif
#ifndef PRE
#define PRE 3
#endif

#ifdef ALLOC
typedef AutoArray<Tr, ALLOC> Arr;
#ifndef LIMIT
#define LIMIT 1000
#endif
static void same(const Arr& a, const Seq& m) {
  CHECK(a.length() == m.n, "length");
  CHECK(a.empty() == (m.n == 0), "empty");
  int good = 1;
  for (unsigned i = 0; i < m.n; i++) good &= (a[i].v == m.a[i]) & a[i].ok();
  CHECK(good, "items are the ones of the model");
  unsigned k = 0; good = 1;
  for (Arr::Iterator it = a.getFwIter(); it.hasItems(); k++) { const Tr& t = it.getNext(); good &= k < m.n && t.v == m.a[k]; }
  CHECK(good && k == m.n, "iteration visits the items in order");
}
static void aop(Arr& a, Seq& m, Arr& b, Seq& mb) {
  unsigned op = pick(0, 15, "op"), c, at, v;
  unsigned total = m.n; Seq o = m; // total: what the result would need
  try {
    switch (op) {
      case 0: v = val("v"); m.ins(m.n, v); a.add(Tr(v)); break;
      case 1: v = val("v"); c = pick(0, CNT, "count"); for (unsigned i = 0; i < c; i++) m.ins(m.n, v); a.add(Tr(v), c); break;
      case 2: at = pick(0, m.n, "at"); v = val("v"); c = pick(0, CNT, "count"); for (unsigned i = 0; i < c; i++) m.ins(at, v); if (c == 1) a.insert(at, Tr(v)); else a.insert(at, Tr(v), c); break;
      case 3: at = pick(0, m.n, "at"); c = pick(0, CNT + 1, "count"); for (unsigned i = 0; (i < c || c == CNT + 1) && at < m.n; i++) m.del(at); if (c == 1) a.erase(at); else a.erase(at, c == CNT + 1 ? naturalNull : c); break;
      case 4: c = pick(0, CNT, "count"); for (unsigned i = 0; i < c && m.n; i++) m.del(m.n - 1); if (c == 1) a.trunc(); else a.trunc(c); break;
      case 5: c = pick(0, m.n + CNT, "size"); v = val("v"); while (m.n > c) m.del(m.n - 1); while (m.n < c) m.ins(m.n, v); a.resize(c, Tr(v)); break;
      case 6: c = pick(0, m.n + 1, "size"); while (m.n > c) m.del(m.n - 1); while (m.n < c) m.ins(m.n, 0); a.resize(c); break;
      case 7: m.n = 0; a.clear(); break;
      case 8: m = mb; a = b; break;
      case 9: { Seq t = m; m = mb; mb = t; a.swap(b); break; }
      case 10: if (!m.n) break; at = pick(0, m.n - 1, "at"); m.ins(m.n, m.a[at]); a.add(a[at]); break;                  // an item of the same array
      case 11: if (pick(0, 1, "self")) { unsigned k = m.n; for (unsigned i = 0; i < k; i++) m.ins(m.n, m.a[i]); a.append(a); } else { for (unsigned i = 0; i < mb.n; i++) m.ins(m.n, mb.a[i]); a.append(b); } break;
      case 12: at = pick(0, m.n, "at"); for (unsigned i = 0; i < mb.n; i++) m.ins(at + i, mb.a[i]); a.insertArray(at, b); break;
      case 13: if (pick(0, 1, "free")) a.freeExtra(); else a.reserve(m.n + 1); break;
      case 14: if (!m.n) break; at = pick(0, m.n - 1, "at"); v = val("v"); m.a[at] = v; a(at) = Tr(v); break;
      default: if (!m.n) break; at = pick(0, m.n - 1, "at"); c = pick(0, m.n, "to"); v = m.a[at]; m.ins(c, v); m.ins(c, v); a.insert(c, a[at], 2); break; // an item of the same array
    }
    CHECK(a.length() <= LIMIT, "no more items than the allocator has room for");
  } catch (AllocatorLimitException&) {
    CHECK(m.n > LIMIT || (op == 13 && m.n + 1 > LIMIT), "allocator limit reported only when it is exceeded");
    m = o; // strong guarantee of a refused operation
  }
}
extern "C" void h_arr() {
  int h0 = lsx_live_heap();
  {
    Arr a, b; Seq ma, mb;
    unsigned na = pick(0, PRE, "na"), nb = pick(0, 2, "nb");
    for (unsigned i = 0; i < na; i++) { unsigned v = val("a"); a.add(Tr(v)); ma.ins(ma.n, v); }
    for (unsigned i = 0; i < nb; i++) { unsigned v = val("b"); b.add(Tr(v)); mb.ins(mb.n, v); }
    for (int s = 0; s < NS; s++) {
      aop(a, ma, b, mb);
      CHECK(Tr::live == (int)(ma.n + mb.n), "each item constructed and destroyed exactly once");
    }
    same(a, ma); same(b, mb);
    { Arr c(a); same(c, ma); same(a, ma); a = a; same(a, ma);
    if (2 * ma.n <= LIMIT) { c.append(a); CHECK(c.length() == 2 * ma.n, "copy is independent"); same(a, ma); } }
  }
  CHECK(Tr::live == 0, "nothing left behind"); CHECK(lsx_live_heap() == h0, "memory released");
  lsx_reach("done");
}
// a copy that fails in the middle of an operation
extern "C" void h_arrthrow() {
  int h0 = lsx_live_heap();
  {
    Arr a, b; Seq m, mb, o; unsigned na = pick(0, PRE, "na"), nb = pick(0, 2, "nb"), extra = pick(0, 1, "reserve"); if (extra) a.reserve(na + 2);
    for (unsigned i = 0; i < na; i++) { unsigned v = val("a"); a.add(Tr(v)); m.ins(m.n, v); } for (unsigned i = 0; i < nb; i++) { unsigned v = val("b"); b.add(Tr(v)); mb.ins(mb.n, v); }
    o = m; unsigned v = val("v"), op = pick(0, 7, "op"), c, at = m.n; Tr t(v); bool th = false; int fuse = Tr::fuse = pick(0, 6, "fuse");
    try { switch (op) {
      case 0: m.ins(m.n, v); a.add(t); break;
      case 1: c = pick(0, 2, "count"); for (unsigned i = 0; i < c; i++) m.ins(m.n, v); a.add(t, c); break;
      case 2: at = pick(0, m.n, "at"); m.ins(at, v); a.insert(at, t); break;
      case 3: at = pick(0, m.n, "at"); m.ins(at, v); m.ins(at, v); a.insert(at, t, 2); break;
      case 4: for (unsigned i = 0; i < mb.n; i++) m.ins(m.n, mb.a[i]); a.append(b); break;
      case 5: a.reserve(m.n + 1); break;
      case 6: { Arr x(a); same(x, m); Tr::fuse = 0; break; }
      default: c = m.n + pick(0, 2, "more"); while (m.n < c) m.ins(m.n, v); a.resize(c, t); break;
    } } catch (TrFailed&) { th = true; Seq f = o; unsigned j = a.length() - o.n; CHECK(j <= m.n - o.n, "a failed copy adds something else"); for (unsigned i = 0; i < j; i++) f.ins(at + i, m.a[at + i]); m = f; } // items before the failed one may be there
    CHECK(!th || fuse, "thrown"); Tr::fuse = 0; CHECK(Tr::live == (int)(m.n + mb.n + 1), "items alive after a failed copy"); same(a, m); same(b, mb); a.add(t); m.ins(m.n, v); same(a, m);
  }
  CHECK(Tr::live == 0, "nothing left behind"); CHECK(lsx_live_heap() == h0, "memory released"); lsx_reach("done");
}
#endif

// ---- deque, queue, stack
typedef Deque<Tr> Dq;
static void same(const Dq& d, const Seq& m) { // m.a[0] is the back end
  CHECK(d.length() == m.n, "length"); CHECK(d.empty() == (m.n == 0), "empty");
  int good = 1; for (unsigned i = 0; i < m.n; i++) good &= (d.at(i).v == m.a[i]) & d.at(i).ok();
  CHECK(good, "items in order");
  if (m.n) { CHECK(d.getBack().v == m.a[0], "back"); CHECK(d.getFront().v == m.a[m.n - 1], "front"); }
  else {
    int e = 0;
    try { d.getBack(); } catch (ContainerIsEmptyException&) { e++; } try { d.getFront(); } catch (ContainerIsEmptyException&) { e++; }
    CHECK(e == 2, "empty container reported");
  }
}
extern "C" void h_deque() {
  int h0 = lsx_live_heap();
  {
    Dq d, e; Seq m, me; unsigned v;
    unsigned k = pick(0, 2, "e"); for (unsigned i = 0; i < k; i++) { v = val("e"); e.pushFront(Tr(v)); me.ins(me.n, v); }
    unsigned k1 = pick(0, 3, "pushes"), k2 = pick(0, k1, "pops"); // a rotated starting position
    for (unsigned i = 0; i < k1; i++) { v = val("p"); d.pushFront(Tr(v)); m.ins(m.n, v); }
    for (unsigned i = 0; i < k2; i++) { d.popBack(); m.del(0); }
    for (int s = 0; s < NS; s++) {
      switch (pick(0, 8, "op")) {
        case 0: v = val("v"); d.pushBack(Tr(v)); m.ins(0, v); break;
        case 1: v = val("v"); d.pushFront(Tr(v)); m.ins(m.n, v); break;
        case 2: if (m.n) { d.popBack(); m.del(0); } else { bool t = false; try { d.popBack(); } catch (ContainerIsEmptyException&) { t = true; } CHECK(t, "pop of empty"); } break;
        case 3: if (m.n) { d.popFront(); m.del(m.n - 1); } else { bool t = false; try { d.popFront(); } catch (ContainerIsEmptyException&) { t = true; } CHECK(t, "pop of empty"); } break;
        case 4: { unsigned c = pick(0, 5, "reserve"); d.reserve(c); break; }
        case 5: if (pick(0, 1, "clear")) { d.clear(); m.n = 0; } else { d.swap(e); Seq t = m; m = me; me = t; } break;
        case 6: if (m.n) { d.pushBack(d.getFront()); m.ins(0, m.a[m.n - 1]); } break;   // an item of the same container
        case 7: if (m.n) { unsigned at = pick(0, m.n - 1, "at"); v = val("v"); d.set(at, Tr(v)); m.a[at] = v; } break;
        default: if (m.n) { d.pushFront(d.getBack()); m.ins(m.n, m.a[0]); } break;
      }
      CHECK(Tr::live == (int)(m.n + me.n), "each item constructed and destroyed exactly once");
    }
    same(d, m); same(e, me);
    { Dq c(d); same(c, m); c.pushBack(Tr(1)); same(d, m); }
    CHECK(Tr::live == (int)(m.n + me.n), "copy destroyed");
  }
  CHECK(Tr::live == 0, "nothing left behind"); CHECK(lsx_live_heap() == h0, "memory released");
  lsx_reach("done");
}
extern "C" void h_queue() {
  int h0 = lsx_live_heap();
  {
    Queue<Tr> q; Stack<Tr> st; Seq mq, ms; unsigned v;
    for (int s = 0; s < NS; s++) {
      unsigned op = pick(0, 2, "op");
      if (op == 0) { v = val("v"); q.push(Tr(v)); mq.ins(mq.n, v); st.push(Tr(v)); ms.ins(ms.n, v); }
      else if (op == 1) {
        if (!mq.n) { bool t = false; try { q.pop(); } catch (ContainerIsEmptyException&) { t = true; } CHECK(t, "pop of empty queue"); }
        else { CHECK(q.top().v == mq.a[0], "queue gives the oldest item"); q.pop(); mq.del(0); }
      } else {
        if (!ms.n) { bool t = false; try { st.pop(); } catch (ContainerIsEmptyException&) { t = true; } CHECK(t, "pop of empty stack"); }
        else { CHECK(st.top().v == ms.a[ms.n - 1], "stack gives the newest item"); st.pop(); ms.n--; }
      }
      CHECK(q.length() == mq.n && st.length() == ms.n && q.empty() == (mq.n == 0) && st.empty() == (ms.n == 0), "length");
      CHECK(Tr::live == (int)(mq.n + ms.n), "each item constructed and destroyed exactly once");
    }
    while (mq.n) { CHECK(q.top().v == mq.a[0] && q.top().ok(), "queue order"); q.pop(); mq.del(0); }
    while (ms.n) { CHECK(st.top().v == ms.a[ms.n - 1] && st.top().ok(), "stack order"); st.pop(); ms.n--; }
    CHECK(q.empty() && st.empty(), "empty at the end");
  }
  CHECK(Tr::live == 0 && lsx_live_heap() == h0, "nothing left behind");
  lsx_reach("done");
}

// ---- linked list
typedef LinkedList<Tr> LL;
static void same(const LL& l, const Seq& m) {
  CHECK(l.size() == m.n, "size"); CHECK(l.empty() == (m.n == 0), "empty");
  unsigned k = 0; int good = 1;
  for (LL::Iterator i = l.getFwIter(); i.hasItems(); k++) { CHECK(k < m.n, "more items than expected"); const Tr& p = i.peek(); const Tr& t = i.getNext(); good &= &p == &t && t.v == m.a[k] && t.ok(); }
  CHECK(good && k == m.n, "items in order");
  if (m.n) { CHECK(l.getFirst().v == m.a[0], "first"); CHECK(l.getLast().v == m.a[m.n - 1], "last"); }
}
static LL::Iterator seek(const LL& l, unsigned at);
static void order(const LL& l, unsigned n) { unsigned a = pick(0, n, "a"), b = pick(0, n, "b"); LL::Iterator i = seek(l, a), j = seek(l, b); CHECK(i.equalTo(j) == (a == b) && i.lessThan(j) == (a < b), "iterators compare by position"); }
static LL::Iterator seek(const LL& l, unsigned at) { LL::Iterator i = l.getFwIter(); while (at--) i.skip(); return i; }
// an iterator returned for a new item names that item: it can be read, erased or used as a position
static void fresh(LL& l, Seq& m, LL::Iterator it, unsigned at, unsigned v) {
  m.ins(at, v);
  switch (pick(0, 3, "use")) {
    case 0: CHECK(it.getNext().v == v && it.hasItems() == (at + 1 < m.n), "iterator of the new item"); break;
    case 1: l.erase(it); m.del(at); break;
    case 2: v = val("w"); l.insertBefore(it, Tr(v)); m.ins(at, v); break;
    default: v = val("w"); l.insertAfter(it, Tr(v)); m.ins(at + 1, v); break;
  }
}
extern "C" void h_list() {
  { LL warm; warm.add(Tr(0)); } // the shared default allocator is created on first use
  int h0 = lsx_live_heap();
  {
    LL l, k; Seq m, mk; unsigned v, at;
    unsigned n = pick(0, PRE, "n"), n2 = pick(0, 2, "n2");
    for (unsigned i = 0; i < n; i++) { v = val("a"); l.add(Tr(v)); m.ins(m.n, v); }
    for (unsigned i = 0; i < n2; i++) { v = val("b"); k.add(Tr(v)); mk.ins(mk.n, v); }
    for (int s = 0; s < NS; s++) {
      switch (pick(0, 10, "op")) {
        case 0: v = val("v"); fresh(l, m, l.add(Tr(v)), m.n, v); break;
        case 1: v = val("v"); fresh(l, m, l.insertFirst(Tr(v)), 0, v); break;
        case 2: if (m.n) { at = pick(0, m.n - 1, "at"); v = val("v"); fresh(l, m, l.insertAfter(seek(l, at), Tr(v)), at + 1, v); } break;
        case 3: if (m.n) { at = pick(0, m.n - 1, "at"); v = val("v"); LL::Iterator it = seek(l, at); LL::Iterator r = l.insertBefore(it, Tr(v));
            if (pick(0, 1, "again")) { m.ins(at, v); v = val("v"); l.insertBefore(it, Tr(v)); m.ins(at + 1, v); CHECK(it.hasItems() && it.getNext().v == m.a[at + 2], "the iterator stays at its item"); } else fresh(l, m, r, at, v); } break;
        case 4: if (m.n) { at = pick(0, m.n - 1, "at"); LL::Iterator r = l.erase(seek(l, at)); m.del(at);
            CHECK(r.hasItems() == (at < m.n), "iterator behind the erased item"); if (at < m.n) CHECK(r.getNext().v == m.a[at], "next item"); } break;
        case 5: l.eraseFirst(); if (m.n) m.del(0); break;
        case 6: l.clear(); m.n = 0; break;
        case 7: l = k; m = mk; break;
        case 8: { l.swap(k); Seq t = m; m = mk; mk = t; break; }
        case 10: order(l, m.n); break;
        default: if (m.n) { at = pick(0, m.n - 1, "at"); v = val("v"); l.getItem(seek(l, at)) = Tr(v); m.a[at] = v; } break;
      }
      CHECK(Tr::live == (int)(m.n + mk.n), "each item constructed and destroyed exactly once");
    }
    same(l, m); same(k, mk);
    { LL c(l); same(c, m); c.insertFirst(Tr(1)); same(l, m); }
    l = l; same(l, m);
    l.add(Tr(7)); m.ins(m.n, 7); same(l, m);
    LL mv(_moveConstruct, l); same(mv, m); m.n = 0; same(l, m);
  }
  CHECK(Tr::live == 0, "nothing left behind"); CHECK(lsx_live_heap() == h0, "memory released");
  lsx_reach("done");
}

// a copy that fails leaves the container as it was
extern "C" void h_dqthrow() {
  int h0 = lsx_live_heap(); {
    Dq d; Seq m; unsigned v, k1 = pick(0, 4, "pushes"), k2 = pick(0, k1 > 2 ? 2 : k1, "pops"); for (unsigned i = 0; i < k1; i++) { v = val("p"); d.pushFront(Tr(v)); m.ins(m.n, v); } for (unsigned i = 0; i < k2; i++) { d.popBack(); m.del(0); }
    v = val("v"); Tr t(v); Seq o = m; unsigned op = pick(0, 3, "op"); Tr::fuse = pick(0, 5, "fuse"); try { switch (op) { case 0: d.pushBack(t); m.ins(0, v); break; case 1: d.pushFront(t); m.ins(m.n, v); break; case 2: d.reserve(6); break; default: { Dq c(d); same(c, m); } } } catch (TrFailed&) { m = o; }
    Tr::fuse = 0; CHECK(Tr::live == (int)m.n + 1, "items alive after a failed copy"); same(d, m); d.pushFront(t); m.ins(m.n, v); d.pushBack(t); m.ins(0, v); same(d, m);
  } CHECK(Tr::live == 0 && lsx_live_heap() == h0, "nothing left behind"); lsx_reach("done");
}
extern "C" void h_listthrow() {
  { LL warm; warm.add(Tr(0)); } int h0 = lsx_live_heap(); {
    LL l; Seq m; unsigned v, n = pick(0, 2, "n"); for (unsigned i = 0; i < n; i++) { v = val("a"); l.add(Tr(v)); m.ins(m.n, v); }
    v = val("v"); Tr t(v); Seq o = m; unsigned op = pick(0, 4, "op"), at = m.n ? pick(0, m.n - 1, "at") : 0; Tr::fuse = pick(0, 3, "fuse"); try { switch (op) { case 0: l.add(t); m.ins(m.n, v); break; case 1: l.insertFirst(t); m.ins(0, v); break; case 2: if (m.n) { l.insertAfter(seek(l, at), t); m.ins(at + 1, v); } break; case 3: if (m.n) { l.insertBefore(seek(l, at), t); m.ins(at, v); } break; default: { LL c(l); same(c, m); } } } catch (TrFailed&) { m = o; }
    Tr::fuse = 0; CHECK(Tr::live == (int)m.n + 1, "items alive after a failed copy"); same(l, m); l.add(t); m.ins(m.n, v); same(l, m);
  } CHECK(Tr::live == 0 && lsx_live_heap() == h0, "nothing left behind"); lsx_reach("done");
}
