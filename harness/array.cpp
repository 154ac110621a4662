// Array views and searches (ArrayT): every view/search against a plain array model
#include "lsx.h"
#include "lightspeed/base/containers/constStr.h"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/iterator.h"
using namespace LightSpeed;
#ifndef LEN
#define LEN 4
#endif
#ifndef ST
#define ST 3
#endif
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
struct Ref { char d[32]; unsigned n; Ref() : n(0) {} Ref(const char* s, unsigned k) : n(0) { for (unsigned i = 0; i < k; i++) d[n++] = s[i]; } void add(char c) { d[n++] = c; } void add(const Ref& r) { for (unsigned i = 0; i < r.n; i++) add(r.d[i]); }
  Ref sub(unsigned b, unsigned c) const { return Ref(d + b, c); } Ref rev() const { Ref r; for (unsigned i = n; i-- > 0;) r.add(d[i]); return r; } };
struct Collect { Ref& r; Collect(Ref& r) : r(r) {} bool operator()(const char& c) const { r.add(c); return false; } };
template<class A> static void same(const A& a, const Ref& r) {
  CHECK(a.length() == r.n, "length of the view"); CHECK(a.empty() == (r.n == 0), "empty() differs from length() == 0");
  bool eq = true; for (unsigned i = 0; i < r.n; i++) eq &= a.at(i) == r.d[i]; CHECK(eq, "item of the view");
  Ref c; a.forEach(Collect(c)); CHECK(c.n == r.n, "forEach visits another number of items"); eq = true; for (unsigned i = 0; i < r.n; i++) eq &= c.d[i] == r.d[i]; CHECK(eq, "forEach visits other items");
  CHECK(a == ConstStrA(r.d, r.n), "view differs from its items");
  StringA s(a); CHECK(s.length() == r.n, "length of a string made of the view"); eq = true; for (unsigned i = 0; i < r.n; i++) eq &= s[i] == r.d[i]; CHECK(eq, "string made of the view");
}
static natural clip(natural x, natural m) { return x < m ? x : m; }
// a position or count: any small value, or any value at all
static natural anyNat(const char* n) { natural v = lsx_u64(n); return v; }
template<class A> static void views(const A& a, const Ref& r) {
  natural p = anyNat("pos"), c = anyNat("count");
  switch (pick(8, "view")) {
  case 0: { natural b = clip(p, r.n), k = clip(c, r.n - b); b = lsx_concretize(b); k = lsx_concretize(k); same(a.mid(p, c), r.sub(b, k)); break; }
  case 1: { natural k = lsx_concretize(clip(c, r.n)); same(a.head(c), r.sub(0, k)); break; }
  case 2: { natural k = lsx_concretize(clip(c, r.n)); same(a.tail(c), r.sub(r.n - k, k)); break; }
  case 3: { natural b = lsx_concretize(clip(p, r.n)); same(a.offset(p), r.sub(b, r.n - b)); break; }
  case 4: { natural b = lsx_concretize(clip(p, r.n)), k = lsx_concretize(clip(c, r.n - b)); same(a.crop(p, c), r.sub(b, r.n - b - k)); break; }
  case 5: same(a.reverse(), r.rev()); break;
  case 6: { unsigned d = pick(3, "dir"); char t = lsx_u8("trim"); unsigned b = 0, e = r.n; if (d != 1) while (b < e && r.d[b] == t) b++; if (d != 2) while (b < e && r.d[e - 1] == t) e--;
      same(a.trim(t, d == 0 ? Direction::undefined : d == 1 ? Direction::right : Direction::left), r.sub(b, e - b)); break; }
  default: { char t[2]; lsx_bytes(t, 2, "trim"); unsigned b = 0, e = r.n; while (b < e && ((r.d[b] == t[0]) | (r.d[b] == t[1]))) b++; while (b < e && ((r.d[e - 1] == t[0]) | (r.d[e - 1] == t[1]))) e--;
      same(a.trim(ConstStrA(t, 2)), r.sub(b, e - b)); break; }
  }
  lsx_reach("done");
}
static Ref input(unsigned n, const char* nm) { Ref r; r.n = n; lsx_bytes(r.d, n, nm); return r; }
extern "C" void h_views() { Ref r = input(pick(LEN + 1, "n"), "s"); views(ConstStrA(r.d, r.n), r); }
extern "C" void h_viewsStr() { Ref r = input(pick(LEN + 1, "n"), "s"); StringA s(ConstStrA(r.d, r.n)); views(s, r); }
extern "C" void h_viewsSum() { unsigned n = pick(LEN + 1, "n"), k = pick(n + 1, "k"); Ref r = input(n, "s"); ConstStrA a(r.d, k), b(r.d + k, n - k); views(a + b, r); }
extern "C" void h_viewsRev() { Ref r = input(pick(LEN + 1, "n"), "s"); ConstStrA a(r.d, r.n); views(a.reverse(), r.rev()); }
extern "C" void h_sum() { // concatenation of three, views of the concatenation, in strings
  unsigned n = pick(LEN + 1, "n"), j = pick(n + 1, "j"), k = pick(n - j + 1, "k") + j; Ref r = input(n, "s"); ConstStrA a(r.d, j), b(r.d + j, k - j), c(r.d + k, n - k);
  same(a + b + c, r); same(a + (b + c), r);
  Ref r2 = r; r2.add(r); same((a + b) + (c + a) + (b + c), r2);
  StringA s = a + b; s = s + c; CHECK(s == ConstStrA(r.d, r.n), "string concatenation"); s = s + s; CHECK(s == ConstStrA(r2.d, r2.n), "string concatenated with itself");
  lsx_reach("done");
}
extern "C" void h_repeat() { unsigned n = pick(LEN, "n") + 1, k = pick(4, "k"); Ref r = input(n, "s"), e; for (unsigned i = 0; i < k; i++) e.add(r); ConstStrA a(r.d, n); same(a.repeat(k), e); lsx_reach("done"); }
extern "C" void h_viewsRep() { unsigned n = pick(3, "n") + 1, k = pick(4, "k"); Ref r = input(n, "s"), e; for (unsigned i = 0; i < k; i++) e.add(r); ConstStrA a(r.d, n); views(a.repeat(k), e); }
#define NF naturalNull
static natural fChar(const Ref& r, char c, natural from) { natural res = NF; for (unsigned i = r.n; i-- > 0;) res = lsx_ite((r.d[i] == c) & (i >= from), i, res); return res; }
static natural lChar(const Ref& r, char c, natural to) { natural res = NF; for (unsigned i = 0; i < r.n; i++) res = lsx_ite((r.d[i] == c) & (i < to), i, res); return res; }
static bool at(const Ref& r, unsigned i, const Ref& q) { if (i + q.n > r.n) return false; bool e = true; for (unsigned k = 0; k < q.n; k++) e &= r.d[i + k] == q.d[k]; return e; }
extern "C" void h_find() {
  unsigned n = pick(LEN + 1, "n"); Ref r = input(n, "s"); ConstStrA a(r.d, n); natural pos = anyNat("pos");
  switch (pick(6, "op")) {
  case 0: { char c = lsx_u8("c"); CHECK(a.find(c) == fChar(r, c, 0), "find(item)"); break; }
  case 1: { char c = lsx_u8("c"); CHECK(a.find(c, pos) == fChar(r, c, pos), "find(item, from)"); break; }
  case 2: { char c = lsx_u8("c"); CHECK(a.findLast(c) == lChar(r, c, NF), "findLast(item)"); break; }
  case 3: { unsigned m = pick(3, "m") + 1; Ref q = input(m, "q"); natural f = NF; for (unsigned i = n; i-- > 0;) f = lsx_ite(at(r, i, q), i, f); CHECK(a.find(ConstStrA(q.d, m)) == f, "find(sequence)"); break; }
  case 4: { unsigned m = pick(3, "m") + 1; Ref q = input(m, "q"); natural f = NF; for (unsigned i = n; i-- > 0;) f = lsx_ite(at(r, i, q) & (i >= pos), i, f); CHECK(a.find(ConstStrA(q.d, m), pos) == f, "find(sequence, from)"); break; }
  default: { char q[2]; lsx_bytes(q, 2, "q"); ConstStrA qs(q, 2); natural f = NF, l = NF, fp = NF, lp = NF; for (unsigned i = 0; i < n; i++) { unsigned j = n - 1 - i; f = lsx_ite((r.d[j] == q[0]) | (r.d[j] == q[1]), j, f); l = lsx_ite((r.d[i] == q[0]) | (r.d[i] == q[1]), i, l); fp = lsx_ite(((r.d[j] == q[0]) | (r.d[j] == q[1])) & (j >= pos), j, fp); lp = lsx_ite(((r.d[i] == q[0]) | (r.d[i] == q[1])) & (i < pos), i, lp); }
      unsigned w = pick(4, "w"); if (w == 0) CHECK(a.findOneOf(qs) == f, "findOneOf"); else if (w == 1) CHECK(a.findLastOneOf(qs) == l, "findLastOneOf"); else if (w == 2) CHECK(a.findOneOf(qs, pos) == fp, "findOneOf(set, from)"); else CHECK(a.findLastOneOf(qs, pos) == lp, "findLastOneOf(set, to)"); break; }
  }
  lsx_reach("done");
}
extern "C" void h_split() {
  unsigned n = pick(LEN + 1, "n"); Ref r = input(n, "s"); ConstStrA a(r.d, n); char sep = lsx_u8("sep"); unsigned p = 0; unsigned parts = 0; unsigned rest = pick(LEN + 2, "rest");
  ConstStrA::SplitIterator it = a.split(sep);
  while (it.hasItems()) {
    CHECK(p <= n, "more parts than separators + 1"); if (parts == rest) { ConstStrA g = it.getRest(); CHECK(g.length() == n - p, "rest after some parts"); bool e = true; for (unsigned i = p; i < n; i++) e &= g[i - p] == r.d[i]; CHECK(e, "rest after some parts"); }
    unsigned e = p; while (e < n && r.d[e] != sep) e++;
    ConstStrA pk = it.peek(); CHECK(pk.length() == e - p, "peek at the next part"); ConstStrA g = it.getNext(); CHECK(g.length() == e - p, "length of a part"); bool eq = true; for (unsigned i = p; i < e; i++) eq &= g[i - p] == r.d[i]; CHECK(eq, "content of a part");
    p = e + 1; parts++;
  }
  CHECK(p == n + 1, "parts missing"); lsx_reach("done");
}
extern "C" void h_compare() {
  unsigned n = pick(LEN + 1, "n"), m = pick(LEN + 1, "m"); Ref r = input(n, "a"), q = input(m, "b"); int c = 0; // -1,0,1 lexicographic
  unsigned k = n < m ? n : m; c = n < m ? -1 : n > m ? 1 : 0; for (unsigned i = k; i-- > 0;) c = lsx_ite(r.d[i] < q.d[i], (natural)-1, lsx_ite(r.d[i] > q.d[i], 1, (natural)(integer)c));
  bool lt = c < 0, eq = c == 0, gt = c > 0; unsigned how = pick(4, "how"); ConstStrA a(r.d, n), b(q.d, m);
#define CMP(A, B) do { CHECK(((A) == (B)) == eq, "=="); CHECK(((A) != (B)) == !eq, "!="); CHECK(((A) < (B)) == lt, "<"); CHECK(((A) > (B)) == gt, ">"); CHECK(((A) <= (B)) == !gt, "<="); CHECK(((A) >= (B)) == !lt, ">="); } while (0)
  if (how == 0) CMP(a, b);
  else if (how == 1) { StringA sa(a), sb(b); CMP(sa, sb); CHECK((StrCmpCS<char>()(a, b) == cmpResultEqual) == eq, "StrCmpCS"); CHECK((StrCmpCS<char>()(a, b) == cmpResultLess) == lt, "StrCmpCS"); }
  else if (how == 2) { unsigned j = pick(n + 1, "j"); ConstStrA a1(r.d, j), a2(r.d + j, n - j); CMP(a1 + a2, b); CMP(a2.head(0) + a, b + a2.head(0)); }
  else { StringA sb(b); CMP(a, sb); }
  lsx_reach("done");
}
// copying into a bounded target: what fits, in order
extern "C" void h_render() {
  unsigned n = pick(LEN + 1, "n"), cap = pick(LEN + 2, "cap"); Ref r = input(n, "s"); ConstStrA a(r.d, n); char buf[LEN + 2]; for (unsigned i = 0; i < LEN + 2; i++) buf[i] = 1; ArrayRef<char> t(buf, cap);
  ArrayRef<char>::WriteIterator w = t.getWriteIterator(); natural k = a.render(w); CHECK(k == (n < cap ? n : cap), "number of items copied"); CHECK(w.hasItems() == (cap > n), "room left"); CHECK(w.getRemain() == cap - k, "room left");
  for (unsigned i = 0; i < LEN + 2; i++) CHECK(buf[i] == (i < k ? r.d[i] : 1), "copied items"); lsx_reach("done");
}
extern "C" void h_viewsMid() { // views of views
  Ref r = input(pick(LEN + 1, "n"), "s"); unsigned b = pick(r.n + 1, "b"), k = pick(r.n - b + 1, "k"); ConstStrA a(r.d, r.n); views(a.mid(b, k), r.sub(b, k));
}
// array iterators in both directions, with seeking
extern "C" void h_iter() {
  unsigned n = pick(LEN + 1, "n"); Ref r = input(n, "s"); ConstStrA a(r.d, n); bool bk = pick(2, "backward"); ConstStrA::Iterator it = bk ? a.getBkIter() : a.getFwIter(); integer pos = bk ? (integer)n - 1 : 0; // -1 .. n
  for (unsigned step = 0; step < ST; step++) {
    bool has = pos >= 0 && pos < (integer)n; CHECK(it.hasItems() == has, "hasItems"); CHECK(it.getRemain() == (natural)(bk ? pos + 1 : (integer)n - pos) || pos == (bk ? (integer)n : -1), "getRemain");
    switch (pick(5, "op")) {
    case 0: if (has) { CHECK(it.peek() == r.d[pos], "peek"); } break;
    case 1: if (has) { CHECK(it.getNext() == r.d[pos], "getNext"); pos += bk ? -1 : 1; } else { bool th = false; try { it.getNext(); } catch (const IteratorNoMoreItems&) { th = true; } CHECK(th, "getNext at the end does not throw"); } break;
    case 2: if (pos >= 0) { natural o = anyNat("offset"); natural k = lsx_concretize(clip(o, n - pos)); CHECK(it.canSeek(Direction::forward) == (pos < (integer)n), "canSeek"); lsx_assume(o <= n); CHECK(it.seek(o, Direction::forward) == k, "seek forward: distance"); pos += k; } break;
    case 3: { natural o = anyNat("offset"); natural k = lsx_concretize(clip(o, pos + 1)); CHECK(it.canSeek(Direction::backward) == (pos >= 0), "canSeek"); CHECK(it.seek(o, Direction::backward) == k, "seek backward: distance"); pos -= k; break; }
    default: { natural o = anyNat("offset"); lsx_assume(o != naturalNull); natural k = lsx_concretize(clip(o, n)); CHECK(it.seek(o, Direction::absolute) == k, "seek to a position"); pos = k; break; } }
    CHECK(it.tell() == (natural)pos, "tell");
  }
  lsx_reach("done");
}
// writing through views
extern "C" void h_write() {
  unsigned n = pick(LEN, "n") + 1; Ref r = input(n, "s"); AutoArray<char> a; a.append(ConstStrA(r.d, n)); unsigned b = pick(n, "b"), k = pick(n - b, "k") + 1, i = pick(k, "i"); char x = lsx_u8("x");
  switch (pick(5, "view")) { case 0: a.mid(b, k)(i) = x; r.d[b + i] = x; break; case 1: a.head(k)(i) = x; r.d[i] = x; break; case 2: a.tail(k)(i) = x; r.d[n - k + i] = x; break; case 3: a.offset(b)(i) = x; r.d[b + i] = x; break; default: a.reverse()(i) = x; r.d[n - 1 - i] = x; }
  CHECK(a.length() == n, "length"); for (unsigned j = 0; j < n; j++) CHECK(a[j] == r.d[j], "item after a write through a view"); lsx_reach("done");
}
