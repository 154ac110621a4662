// Strings: value semantics over shared buffers, conversions, comparisons, string pool
#include "lsx.h"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/stringpool.tcc"
#include "lightspeed/base/containers/stringparam.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/iterator.h"
using namespace LightSpeed;
#ifndef NS
#define NS 4
#endif
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
enum { CAP = 40 };
template<class C> struct RefT { C d[CAP]; unsigned n; RefT() : n(0) {} void add(const RefT& r) { CHECK(n + r.n <= CAP, "model"); for (unsigned i = 0, e = r.n; i < e; i++) d[n + i] = r.d[i]; n += r.n; } };
template<class C> static void symArr(C* d, unsigned n, const char* nm) { for (unsigned i = 0; i < n; i++) { d[i] = (C)lsx_sym(sizeof(C) * 8, nm); } }
template<class S, class C> static void same(const S& s, const RefT<C>& r) {
  CHECK(s.length() == r.n, "string length"); bool eq = true; for (unsigned i = 0; i < r.n; i++) eq &= s[i] == r.d[i]; CHECK(eq, "string content"); CHECK(s.empty() == (r.n == 0), "empty()");
  const C* z = s.cStr(); CHECK(z[r.n] == 0, "cStr() is not terminated"); eq = true; for (unsigned i = 0; i < r.n; i++) eq &= z[i] == r.d[i]; CHECK(eq, "cStr() content");
}
// counting allocator, so that every buffer is seen to be given back
struct CountAlloc : public IRuntimeAlloc {
  int live; natural size[32]; void* ptr[32]; unsigned cnt; CountAlloc() : live(0), cnt(0) {}
  void* alloc(natural sz) { CHECK(cnt < 32, "model"); void* p = ::operator new(sz ? sz : 1); ptr[cnt] = p; size[cnt++] = sz; live++; return p; }
  void dealloc(void* p, natural sz) { unsigned i = 0; while (i < cnt && ptr[i] != p) i++; CHECK(i < cnt, "buffer given back to an allocator it did not come from, or twice"); CHECK(size[i] == sz, "buffer given back with another size"); ptr[i] = 0; live--; ::operator delete(p); }
  void* alloc(natural sz, IRuntimeAlloc*& owner) { owner = this; return alloc(sz); }
  natural getObjectSize() const { return sizeof(CountAlloc); } CountAlloc* clone(IRuntimeAlloc&) const { throwUnsupportedFeature(THISLOCATION, this, "clone"); return 0; } CountAlloc* clone() const { throwUnsupportedFeature(THISLOCATION, this, "clone"); return 0; }
};
// every mix of operations on three handles: each behaves as a value of its own
template<class S, class C> static void cow() {
  CountAlloc al; {
  S s[3]; RefT<C> r[3]; C init[2]; symArr(init, 2, "init");
  { S t(ConstStringT<C>(init, 2), al); s[0] = t; r[0].n = 2; r[0].d[0] = init[0]; r[0].d[1] = init[1]; }
  for (unsigned step = 0; step < NS; step++) {
    unsigned op = pick(9, "op"), i = pick(3, "i"), j = (i + 1 + (op == 0 || op == 3 || op == 5 ? pick(2, "j") : 0)) % 3;
    switch (op) {
    case 0: s[i] = s[j]; r[i] = r[j]; break;
    case 1: { S c(s[i]); s[j] = c; r[j] = r[i]; break; }
    case 2: if (r[i].n) { C x; symArr(&x, 1, "x"); unsigned at = pick(r[i].n > 2 ? 2 : r[i].n, "at"); s[i].data()[at] = x; r[i].d[at] = x; } break; // write access isolates
    case 3: if (r[i].n + r[j].n <= 8) { s[i] = s[i] + s[j]; r[i].add(r[j]); } break;
    case 4: if (r[i].n) { s[i] = s[i].mid(1, 2); RefT<C> t; for (unsigned k = 1; k < r[i].n && k < 3; k++) t.d[t.n++] = r[i].d[k]; r[i] = t; } break;
    case 5: s[j] = s[i].getMT(); r[j] = r[i]; break;
    case 6: s[j] = s[i].copy(); r[j] = r[i]; s[i].isolate(); break;
    case 7: s[i] = s[i]; break;
    default: s[i].clear(); r[i].n = 0; break;
    }
    for (unsigned k = 0; k < 3; k++) same(s[k], r[k]);
  } }
  CHECK(al.live == 0, "string buffer is never given back"); lsx_reach("done");
}
extern "C" void h_cow() { cow<StringA, char>(); }
extern "C" void h_cowW() { cow<StringW, wchar_t>(); }
// building: through buffers and write iterators, from every kind of source, parameters
extern "C" void h_build() {
  unsigned n = pick(5, "n"); RefT<char> r; r.n = n; symArr(r.d, n, "s"); ConstStrA src(r.d, n); StringA s("other");
  switch (pick(7, "how")) {
  case 0: { char* p = s.createBuffer(n); for (unsigned i = 0; i < n; i++) p[i] = r.d[i]; break; }
  case 1: { StringA::WriteIterator w = s.createBufferIter(n); for (unsigned i = 0; i < n; i++) { CHECK(w.hasItems() && w.getRemain() == n - i, "room in the string buffer"); w.write(r.d[i]); } CHECK(!w.hasItems(), "room in the string buffer"); break; }
  case 2: { unsigned k = pick(n + 1, "k"); StringA::WriteIterator w = s.createBufferIter(n); w.blockWrite(src.head(k), true); StringA::WriteIterator w2(w); w2.blockWrite(src.offset(k), true); bool th = false; try { w.blockWrite(ConstStrA("x"), true); } catch (const WriteIteratorNoSpace&) { th = true; } CHECK(th, "block write beyond the buffer does not throw"); CHECK(w.blockWrite(ConstStrA("x"), false) == 0, "block write beyond the buffer"); break; }
  case 3: { AutoArray<char> a; a.append(src); s = a; break; }
  case 4: { StringParam<char> p(src); s = p; break; }
  case 5: { StringA t(src); StringParam<char> p(t); StringA u = p; s = u; same(t, r); break; }
  default: s = src; break;
  }
  same(s, r); StringA t; CHECK(t.length() == 0 && t.empty() && *t.cStr() == 0, "default string"); same(StringA(s), r); lsx_reach("done");
}
// wide string -> UTF-8 -> wide string, for every string of BMP/supplementary characters
extern "C" void h_utf8() {
  unsigned n = pick(3, "n"); wchar_t w[3]; for (unsigned i = 0; i < n; i++) { uint32_t c = (uint32_t)lsx_range(0, 0x10FFFF, "char"); lsx_assume((int)!((c >= 0xD800) & (c < 0xE000))); w[i] = (wchar_t)c; }
  String s(ConstStrW(w, n)); natural len = s.utf8length(); StringA u = s.getUtf8(); CHECK(u.length() == len, "utf8length() differs from the length of getUtf8()"); CHECK(u.cStr()[u.length()] == 0, "terminated");
  CHECK(String::getUtf8(ConstStrW(w, n)) == u, "static getUtf8 differs"); CHECK(String::utf8length(ConstStrW(w, n)) == len, "static utf8length differs");
  String b((ConstStrA(u))); CHECK(b.length() == n, "length after UTF-8 round trip"); for (unsigned i = 0; i < n; i++) CHECK(b[i] == w[i], "character after UTF-8 round trip"); CHECK(b == s, "string after UTF-8 round trip");
  lsx_reach("done");
}
static unsigned char lcase(unsigned char c) { return c + (((c >= 'A') & (c <= 'Z')) << 5); }
// case insensitive comparison (ASCII), total order
extern "C" void h_ci() {
  unsigned n = pick(4, "n"), m = pick(4, "m"); char a[4], b[4]; symArr(a, n, "a"); symArr(b, m, "b");
  for (unsigned i = 0; i < n; i++) lsx_assume((unsigned char)a[i] < 128); for (unsigned i = 0; i < m; i++) lsx_assume((unsigned char)b[i] < 128);
  natural c = n < m ? 0 : n > m ? 2 : 1; for (unsigned i = (n < m ? n : m); i-- > 0;) c = lsx_ite(lcase(a[i]) < lcase(b[i]), 0, lsx_ite(lcase(a[i]) > lcase(b[i]), 2, c));
  StringAI x(ConstStrA(a, n)), y(ConstStrA(b, m)); CHECK((x < y) == (c == 0), "case insensitive <"); CHECK((x == y) == (c == 1), "case insensitive =="); CHECK((x > y) == (c == 2), "case insensitive >");
  CHECK((StrCmpCI<char>()(ConstStrA(a, n), ConstStrA(b, m)) == cmpResultLess) == (c == 0), "StrCmpCI"); lsx_reach("done");
}
// terminated form of a part of a buffer
extern "C" void h_cstr() {
  unsigned n = pick(4, "n"); bool wide = pick(2, "wide");
  if (!wide) { char a[4]; symArr(a, 4, "a"); StringA tmp; const char* p = cStr(ConstStrA(a, n), tmp); for (unsigned i = 0; i < n; i++) CHECK(p[i] == a[i], "cStr content"); CHECK(p[n] == 0, "cStr not terminated"); }
  else { wchar_t a[4]; symArr(a, 4, "a"); StringW tmp; const wchar_t* p = cStr(ConstStrW(a, n), tmp); for (unsigned i = 0; i < n; i++) CHECK(p[i] == a[i], "cStr content"); CHECK(p[n] == 0, "cStr not terminated"); }
  lsx_reach("done");
}
// string pool: references stay valid and keep their content while the pool grows
extern "C" void h_pool() {
  StringPoolA pool; StringPoolA::Str ref[NS + 1]; RefT<char> r[NS + 1]; unsigned cnt = 0; natural mark = 0; unsigned markCnt = 0;
  for (unsigned step = 0; step < NS; step++) {
    unsigned op = pick(6, "op");
    if (op < 4) { unsigned n = pick(3, "n"); RefT<char> x; x.n = n; symArr(x.d, n, "s"); ConstStrA src(x.d, n);
      if (op == 0) ref[cnt] = pool.add(src); else if (op == 1) { ConstStrA::Iterator it = src.getFwIter(); ref[cnt] = pool.add(it); } else if (op == 2) { StringPoolA::WriteIterator w = pool.getWriteIterator(); for (unsigned i = 0; i < n; i++) w.write(x.d[i]); ref[cnt] = w.finish(); } else { if (cnt) { x = r[cnt - 1]; ref[cnt] = pool.add(ConstStrA(ref[cnt - 1].data(), x.n)); } else ref[cnt] = pool(src); }
      r[cnt++] = x; }
    else if (op == 4) { mark = pool.mark(); markCnt = cnt; if (pick(2, "trim")) pool.freeExtra(); }
    else { pool.release(mark); cnt = markCnt; }
    for (unsigned i = 0; i < cnt; i++) { CHECK(ref[i].length() == r[i].n, "length of a pooled string"); const char* p = ref[i].data(); for (unsigned k = 0; k < r[i].n; k++) CHECK(p[k] == r[i].d[k], "content of a pooled string"); if (r[i].n) CHECK(p[r[i].n] == 0, "pooled string is not terminated"); CHECK(ref[i] == ConstStrA(r[i].d, r[i].n), "pooled string compares"); }
  }
  lsx_reach("done");
}
