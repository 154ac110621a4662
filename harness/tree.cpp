// Map / Set / MultiMap / MultiSet / MapReduce against models
#include "tr.h"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/containers/set.tcc"
#include "lightspeed/base/containers/mapreduce.tcc"
using namespace LightSpeed;
typedef Map<unsigned, Tr> M;
static const unsigned minNodes[] = {0, 1, 2, 4, 7, 12, 20, 33};
static natural maxDepth(unsigned n) { natural h = 0; while (minNodes[h + 1] <= n) h++; return h; } // height of the tallest AVL tree with n nodes

static int before(const M::Iterator& a, const M::Iterator& b) { return a.lessThan(b); }
// order, counts, both directions, depth; returns number of items
static unsigned sane(const M& m) {
  unsigned k[32], n = 0; int good = 1;
  M::Iterator it = m.getFwIter();
  while (it.hasItems()) { CHECK(n < 32, "iteration ends"); const M::KeyValue& p = it.peek(); const M::KeyValue& e = it.getNext(); good &= (&p == &e) & e.value.ok(); k[n++] = e.key; }
  for (unsigned i = 1; i < n; i++) good &= k[i - 1] < k[i];
  CHECK(good, "iteration visits keys in strictly ascending order");
  CHECK(m.size() == n && m.length() == n, "size"); CHECK(m.empty() == (n == 0), "empty");
  unsigned j = n; good = 1;
  for (M::Iterator b = m.getBkIter(); b.hasItems();) { CHECK(j > 0, "backward iteration ends"); good &= b.getNext().key == k[--j]; }
  CHECK(good && j == 0, "backward iteration is the reverse");
  natural md = maxDepth(n); good = 1;
  for (M::Iterator d = m.getFwIter(); d.hasItems(); d.skip()) good &= d.getMaxDepth() <= md;
  CHECK(good, "depth of the tree stays logarithmic");
  return n;
}
#ifndef NI
#define NI 5
#endif
#ifndef NE
#define NE 2
#endif
extern "C" void h_map() {
  { M warm; warm.insert(1, Tr(1)); }
  int h0 = lsx_live_heap();
  {
    M m; unsigned key[NI]; bool in[NI];
    for (unsigned i = 0; i < NI; i++) {
      key[i] = lsx_u8("key"); bool ex = lsx_bool("garbage");
      M::Iterator it = m.insert(key[i], Tr(i), &ex);
      int dup = 0; for (unsigned j = 0; j < i; j++) dup |= in[j] & (key[j] == key[i]);
      CHECK(ex == (dup != 0), "insert reports whether the key was present");
      in[i] = !ex;
      CHECK(it.hasItems() && it.peek().key == key[i], "insert returns iterator of the key");
      if (!ex) CHECK(it.peek().value.v == i, "value stored");
      if (i == NI - 1) { // walk from the inserted item to the end
        unsigned last = key[i]; it.skip(); int good = 1; unsigned c = 0;
        while (it.hasItems()) { CHECK(++c <= NI, "iteration from the inserted item ends"); unsigned x = it.getNext().key; good &= x > last; last = x; }
        CHECK(good, "iteration continues behind the inserted item");
      }
    }
    unsigned n = sane(m), cnt = 0; for (unsigned i = 0; i < NI; i++) cnt += in[i];
    CHECK(n == cnt, "number of items");
    for (unsigned e = 0; e < NE; e++) {
      unsigned r = pick(0, NI, "erase"); unsigned k = r < NI ? key[r] : lsx_u8("other key");
      int found = 0; for (unsigned j = 0; j < NI; j++) found |= in[j] & (key[j] == k);
      if (pick(0, 1, "by iterator")) {
        bool f = false; M::Iterator it = m.seek(k, &f);
        CHECK(f == (found != 0), "seek reports whether the key is present");
        if (it.hasItems()) CHECK(f ? it.peek().key == k : it.peek().key > k, "seek gives the key or the next one");
        if (f) {
          M::Iterator nx = it; nx.skip(); bool more = nx.hasItems(); unsigned nk = more ? nx.peek().key : 0;
          m.erase(it);
          CHECK(it.hasItems() == more, "iterator moves behind the erased item"); if (more) CHECK(it.peek().key == nk, "next item");
        }
      } else CHECK(m.erase(k) == (found != 0), "erase reports whether the key was present");
      for (unsigned j = 0; j < NI; j++) in[j] = in[j] & (key[j] != k);
      if (found) cnt--;
    }
    n = sane(m); CHECK(n == cnt, "number of items after erase"); CHECK(Tr::live == (int)n, "values constructed and destroyed exactly once");
    for (unsigned i = 0; i < NI; i++) {
      const Tr* v = m.find(key[i]); int have = 0; unsigned own = 0; // the first one inserted stays
      for (unsigned j = 0; j < NI; j++) { have |= in[j] & (key[j] == key[i]); own = lsx_ite(in[j] & (key[j] == key[i]), j, own); }
      CHECK((v != 0) == (have != 0), "find"); if (v) CHECK(v->v == own, "value of the key");
    }
  }
  CHECK(Tr::live == 0 && lsx_live_heap() == h0, "nothing left behind");
  lsx_reach("done");
}
// tall trees: many shapes, two removals, propagation of balancing over several levels
#ifndef NB
#define NB 12
#endif
extern "C" void h_mapbig() {
  { M warm; warm.insert(1, Tr(1)); }
  int h0 = lsx_live_heap();
  {
    M m; unsigned a = pick(1, 12, "step"), mir = pick(0, 1, "mirror");
    for (unsigned i = 1; i <= NB; i++) { unsigned k = i * a % 13; if (mir) k = 13 - k; m(k) = Tr(k); }
    unsigned in = 0x1ffe & ((2u << NB) - 1); in = 0; for (unsigned i = 1; i <= NB; i++) { unsigned k = i * a % 13; in |= 1u << (mir ? 13 - k : k); }
    sane(m);
    for (unsigned e = 0; e < NE; e++) {
      unsigned k = pick(1, 12, "erase"); 
      bool f = m.erase(k); CHECK(f == ((in >> k & 1) != 0), "erase reports whether the key was present"); in &= ~(1u << k);
      unsigned n = sane(m); CHECK(n == (unsigned)__builtin_popcount(in), "number of items");
    }
    int good = 1; for (unsigned k = 1; k < 13; k++) { const Tr* v = m.find(k); good &= (v != 0) == ((in >> k & 1) != 0) && (!v || v->v == k); }
    CHECK(good, "exactly the remaining keys are found");
    M c(m); CHECK(c.compare(m) == cmpResultEqual, "copy compares equal"); sane(c); 
    if (c.length()) { unsigned k = c.getFwIter().peek().key; c.erase(k); CHECK(m.find(k) != 0, "copy is independent"); }
    m = m; CHECK(sane(m) == (unsigned)__builtin_popcount(in), "self assignment");
  }
  CHECK(Tr::live == 0 && lsx_live_heap() == h0, "nothing left behind");
  lsx_reach("done");
}
// single operations of the map interface on any small map
extern "C" void h_mapops() {
  { M warm; warm.insert(1, Tr(1)); }
  int h0 = lsx_live_heap();
  {
    M m, o; unsigned in = pick(0, 15, "set"), in2 = pick(0, 15, "set2"), order = pick(0, 1, "order");
    unsigned v[5], w[5];
    for (unsigned q = 0; q < 4; q++) { unsigned i = order ? 3 - q : q; v[i] = val("v"); w[i] = val("w"); if (in >> i & 1) m.insert(i * 2, Tr(v[i])); if (in2 >> i & 1) o.insert(i * 2, Tr(w[i])); }
    v[4] = w[4] = 0;
    unsigned x = val("x"), k = pick(0, 3, "k");
    switch (pick(0, 9, "op")) {
      case 0: m.replace(k * 2, Tr(x)); in |= 1u << k; v[k] = x; break;
      case 1: { bool had = in >> k & 1; Tr& r = m(k * 2); CHECK(r.v == (had ? v[k] : 0), "value of a key, default when missing"); r = Tr(x); in |= 1u << k; v[k] = x; break; }
      case 2: { bool had = in >> k & 1; Tr& r = m(k * 2, Tr(x)); CHECK(r.v == (had ? v[k] : x), "value of a key or the given one"); if (!had) v[k] = x; in |= 1u << k; break; }
      case 3: { bool t = false; unsigned got = 0; try { got = ((const M&)m)[k * 2].v; } catch (NotFoundException&) { t = true; } CHECK(t == !(in >> k & 1), "missing key reported"); if (!t) CHECK(got == v[k], "value"); break; }
      case 4: { M s = m + o; unsigned un = in | in2; CHECK(sane(s) == (unsigned)__builtin_popcount(un), "union"); int g = 1;
          for (unsigned i = 0; i < 4; i++) { const Tr* t = s.find(i * 2); g &= (t != 0) == ((un >> i & 1) != 0) && (!t || t->v == ((in >> i & 1) ? v[i] : w[i])); } CHECK(g, "union has all the keys, left values win"); break; }
      case 5: { M s = m - o; unsigned df = in & ~in2; CHECK(sane(s) == (unsigned)__builtin_popcount(df), "difference"); int g = 1;
          for (unsigned i = 0; i < 4; i++) { const Tr* t = s.find(i * 2); g &= (t != 0) == ((df >> i & 1) != 0) && (!t || t->v == v[i]); } CHECK(g, "difference keeps the other keys"); break; }
      case 6: { int r = 0; unsigned a = in, b = in2; // compare sequences of keys
          while (!r && a && b) { int p = __builtin_ctz(a), q = __builtin_ctz(b); if (p != q) r = p < q ? -1 : 1; a &= a - 1; b &= b - 1; }
          if (!r) r = a ? 1 : b ? -1 : 0;
          CompareResult c = m.compare(o); CHECK((c == cmpResultLess) == (r < 0) && (c == cmpResultGreater) == (r > 0) && (c == cmpResultEqual) == (r == 0), "comparison"); break; }
      case 7: { unsigned q = pick(0, 8, "q") ; bool f; Direction::Type d = pick(0, 1, "back") ? Direction::backward : Direction::forward;
          M::Iterator it = m.seek(q - 1, &f, d); int best = -1; // nearest key in the direction
          for (int i = 0; i < 4; i++) if (in >> i & 1) { if (d == Direction::forward) { if (i * 2 >= (int)q - 1 && best < 0 && q > 0) best = i * 2; } else if (q == 0 || i * 2 <= (int)q - 1) best = i * 2; }
          if (q > 0) CHECK(f == ((q & 1) && ((in >> ((q - 1) / 2)) & 1)), "seek result");
          CHECK(it.hasItems() == (best >= 0), "seek finds the nearest key"); if (best >= 0) CHECK(it.peek().key == (unsigned)best, "nearest key");
          // order of positions
          if (it.hasItems()) { M::Iterator nx = it; nx.skip(); if (nx.hasItems()) { CHECK(before(it, nx), "a position precedes the next one"); CHECK(!before(nx, it), "and not the other way round"); } CHECK(it.equalTo(it) && !before(it, it), "a position equals itself"); }
          break; }
      case 8: { // removing through an iterator keeps its direction and continues with the item behind the removed one
          Direction::Type d = pick(0, 1, "back") ? Direction::backward : Direction::forward; bool f; M::Iterator it = m.seek(k * 2, &f, d); if (!f) break;
          m.erase(it); in &= ~(1u << k); int g = 1; unsigned i = k, left = d == Direction::forward ? in >> k : in & ((1u << k) - 1), c = 0;
          while (it.hasItems()) { CHECK(++c <= 4, "iteration from the erased item ends"); do { if (d == Direction::forward) i++; else i--; } while (i < 4 && !(in >> i & 1)); g &= it.getNext().key == i * 2; }
          CHECK(g && c == (unsigned)__builtin_popcount(left), "iteration goes on behind the erased item in its direction"); lsx_reach("eraseDir"); break; }
      default: m.swap(o); { unsigned t = in; in = in2; in2 = t; for (int i = 0; i < 4; i++) { t = v[i]; v[i] = w[i]; w[i] = t; } } break;
    }
    CHECK(sane(m) == (unsigned)__builtin_popcount(in) && sane(o) == (unsigned)__builtin_popcount(in2), "sizes");
    int g = 1; for (unsigned i = 0; i < 4; i++) { const Tr* t = m.find(i * 2); g &= (t != 0) == ((in >> i & 1) != 0) && (!t || t->v == v[i]); t = o.find(i * 2); g &= (t != 0) == ((in2 >> i & 1) != 0) && (!t || t->v == w[i]); g &= m.find(i * 2 + 1) == 0; }
    CHECK(g, "contents"); CHECK(Tr::live == (int)(m.length() + o.length()), "values constructed and destroyed exactly once");
    m.clear(); CHECK(sane(m) == 0, "clear");
  }
  CHECK(Tr::live == 0 && lsx_live_heap() == h0, "nothing left behind");
  lsx_reach("done");
}
typedef Set<unsigned> S;
static unsigned bits(const S& s) { unsigned b = 0, last = 0, n = 0; for (S::Iterator i = s.getFwIter(); i.hasItems(); n++) { unsigned x = i.getNext(); CHECK(n == 0 || x > last, "set order"); last = x; b |= 1u << x; } CHECK(n == s.size(), "set size"); return b; }
extern "C" void h_set() {
  S a, b; unsigned ia = pick(0, 15, "a"), ib = pick(0, 15, "b"), k = pick(0, 3, "k"), rev = pick(0, 1, "order");
  for (unsigned q = 0; q < 4; q++) { unsigned i = rev ? 3 - q : q; if (ia >> i & 1) a.insert(i); if (ib >> i & 1) b.insert(i); }
  CHECK(bits(a) == ia && bits(b) == ib, "contents");
  CHECK(bits(a + b) == (ia | ib), "union"); CHECK(bits(a - b) == (ia & ~ib), "difference"); CHECK(bits(a + k) == (ia | 1u << k), "add"); CHECK(bits(a - k) == (ia & ~(1u << k)), "remove");
  CHECK(bits(a) == ia && bits(b) == ib, "operands are unchanged");
  S c = a; c += b; CHECK(bits(c) == (ia | ib), "+="); c = a; c -= b; CHECK(bits(c) == (ia & ~ib), "-="); c += k; c -= k; CHECK((bits(c) >> k & 1) == 0, "-= item");
  CHECK((a.find(k) != 0) == ((ia >> k & 1) != 0), "find"); CHECK((a.compare(b) == cmpResultEqual) == (ia == ib), "equality"); CHECK((a.compare(b) == cmpResultLess) == (b.compare(a) == cmpResultGreater), "comparison is antisymmetric");
  lsx_reach("done");
}
// several values under one key, insertion order kept
#ifndef NM
#define NM 4
#endif
extern "C" void h_multi() {
  typedef MultiMap<unsigned, unsigned> MM; typedef MultiSet<unsigned> MS;
  MM m; MS s; unsigned key[NM], v[NM]; bool in[NM];
  for (unsigned i = 0; i < NM; i++) { key[i] = pick(0, 2, "k"); v[i] = val("v"); in[i] = true; MM::Iterator it = m.insert(key[i], v[i]); CHECK(it.peek().key == key[i] && it.peek().value == v[i], "iterator of the inserted value"); s.insert(key[i]); }
  for (unsigned e = 0; e <= NM; e++) {
    // the expected sequence: by key, then by time
    unsigned c = 0; MM::Iterator it = m.getFwIter(); MS::Iterator is = s.getFwIter(); int good = 1;
    for (unsigned k = 0; k < 3; k++) for (unsigned i = 0; i < NM; i++) if (in[i] && key[i] == k) {
      CHECK(it.hasItems() && is.hasItems(), "all the values are there"); MM::KeyValue p = it.peek(); MM::KeyValue kv = it.getNext(); good &= kv.key == k && kv.value == v[i] && p.key == k && p.value == v[i]; good &= is.getNext() == k; c++; }
    CHECK(!it.hasItems() && !is.hasItems(), "and nothing else"); CHECK(good, "sorted by key, then by time"); CHECK(m.size() == c && s.size() == c, "size");
    for (unsigned k = 0; k < 3; k++) { MM::ListIter l = m.find(k); MS::Iterator sk = s.seek(k); int g = 1, any = 0; for (unsigned i = 0; i < NM; i++) if (in[i] && key[i] == k) { any = 1; CHECK(l.hasItems(), "value under the key"); g &= l.getNext() == v[i]; } CHECK(!l.hasItems() && g, "values of the key"); CHECK((s.find(k).hasItems() != 0) == any, "member"); if (any) CHECK(sk.hasItems() && sk.peek() == k, "seek"); }
    if (c == 0) break;
    unsigned r = pick(0, c - 1, "erase"); MM::Iterator x = m.getFwIter(); MS::Iterator y = s.getFwIter(); for (unsigned q = 0; q < r; q++) { x.skip(); y.skip(); }
    unsigned q = 0; for (unsigned k = 0; k < 3; k++) for (unsigned i = 0; i < NM; i++) if (in[i] && key[i] == k && q++ == r) { in[i] = false; k = 3; break; }
    m.erase(x); s.erase(y); CHECK(x.hasItems() == (r + 1 < c) && y.hasItems() == (r + 1 < c), "iterator moves behind the erased value");
  }
  lsx_reach("done");
}
// reduced result of the whole map is always the reduction of the current items in key order
struct Red { unsigned s, n; Red() : s(0), n(0) {} Red(unsigned, unsigned v) : s(v), n(1) {} Red(unsigned s, unsigned n, int) : s(s), n(n) {} Red operator+(const Red& o) const { return Red(s * 3 + o.s * 5 * 0 + o.s, n + o.n, 0); } };
struct Cat { unsigned long long s; unsigned n; Cat() : s(0), n(0) {} Cat(unsigned k, unsigned v) : s(k * 16 + v), n(1) {} Cat operator+(const Cat& o) const { Cat c; c.s = (s << 8 * o.n) | o.s; c.n = n + o.n; return c; } }; // concatenation: associative, not commutative
extern "C" void h_mapreduce() {
  typedef MapReduce<unsigned, unsigned, Cat> MR;
  MR m; unsigned in = 0, v[8]; unsigned step = pick(0, 3, "step"); static const unsigned st[] = {1, 3, 5, 7}; unsigned n = pick(3, 7, "n");
  for (unsigned i = 0; i < n; i++) { unsigned k = (i * st[step]) % 8; v[k] = (k * 7 + 3) % 16; m.insert(k, v[k]); in |= 1u << k; if (pick(0, 1, "reduce")) m.reduce(); if (i > 2) m.reduce(); }
  for (unsigned e = 0; e < 2; e++) {
    unsigned k = pick(0, 7, "k"); if (in >> k & 1) { if (pick(0, 1, "by iterator")) { MR::Iterator it = m.seek(k); m.erase(it); } else m.erase(k); in &= ~(1u << k); } else { v[k] = (k + 9) % 16; m.insert(k, v[k]); in |= 1u << k; }
    Cat want; for (unsigned i = 0; i < 8; i++) if (in >> i & 1) want = want.n ? want + Cat(i, v[i]) : Cat(i, v[i]);
    Cat got = m.reduce(); CHECK(got.n == want.n && got.s == want.s, "result is the reduction of the current items");
  }
  lsx_reach("done");
}

// a copy that fails leaves the map as it was
extern "C" void h_mapthrow() {
  { M warm; warm.insert(1, Tr(1)); } int h0 = lsx_live_heap(); {
    M m; unsigned n = pick(0, 3, "n"), val[5]; for (unsigned i = 0; i < n; i++) { val[i] = lsx_u8("v"); m.insert(10 * i, Tr(val[i])); }
    Tr t(lsx_u8("v")); unsigned op = pick(0, 3, "op"), k = pick(0, 6, "key") * 5; bool th = false, had = k % 10 == 0 && k / 10 < n, added = false; Tr::fuse = pick(0, 3, "fuse");
    try { switch (op) { case 0: { bool ex; m.insert(k, t, &ex); CHECK(ex == had, "found"); added = true; break; } case 1: { M c(m); CHECK(sane(c) == n, "copy"); break; } case 2: m.replace(k, t); added = true; if (had) val[k / 10] = t.v; break; default: m(k); added = true; } } catch (TrFailed&) { th = true; }
    Tr::fuse = 0; unsigned now = n + (added && !had); CHECK(Tr::live == (int)now + 1, "items alive after a failed copy"); CHECK(sane(m) == now, "items"); for (unsigned i = 0; i < n; i++) if (!(th && op == 2 && had && k == 10 * i)) CHECK(m[10 * i].v == val[i], "value");
    m.insert(77, t); CHECK(sane(m) == now + 1, "usable");
  } CHECK(Tr::live == 0 && lsx_live_heap() == h0, "nothing left behind"); lsx_reach("done");
}
