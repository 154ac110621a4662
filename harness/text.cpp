#include "conv.h"
#include "lightspeed/base/text/textFormat.tcc"
#include "lightspeed/base/text/textOut.tcc"
#include "lightspeed/base/text/textParser.tcc"
#include "lightspeed/base/text/textIn.tcc"
#include "lightspeed/base/text/textInBuffer.tcc"
#include "lightspeed/base/text/textLineReader.h"
#include "lightspeed/base/text/toString.tcc"
#include "lightspeed/base/exceptions/invalidNumberFormat.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/containers/autoArray.tcc"
static unsigned pick(unsigned n, const char* w) { return n <= 1 ? 0 : lsx_concretize(lsx_range(0, n - 1, w)); }
// ---- numbers
static int digitOf(unsigned c) { return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'A' && c <= 'Z' ? (int)c - 'A' + 10 : c >= 'a' && c <= 'z' ? (int)c - 'a' + 10 : 99; }
// text must be the one and only representation of the number neg ? -mag : mag
template<class S> static void checkDigits(const S& s, uint64_t v, bool neg, unsigned base, int up) {
  unsigned i = 0, n = s.length();
  if (neg) { CHECK(n && s[0] == '-', "number text: a negative number starts with '-'"); i = 1; v = 0 - v; }
  CHECK(n > i, "number text: no digits"); CHECK(n == i + 1 || s[i] != '0', "number text: a leading zero");
  uint64_t r = 0; bool ok = true;
  for (; i < n; i++) { unsigned c = (unsigned)s[i]; int d = (int)lsx_ite(c <= '9', c - '0', lsx_ite(c >= 'a', c - 'a', c - 'A') + 10); ok = ok & (d >= 0) & (d < (int)base) & ((c <= '9') | ((c >= 'A') & (c <= 'Z') & (up != 0)) | ((c >= 'a') & (c <= 'z') & (up != 1))); r = r * base + d; }
  CHECK(ok, "number text: not a digit of the base"); CHECK(r == v, "number text: digits give another number");
}
#ifndef BASES
#define BASES 4
#endif
#ifndef SPREAD
#define SPREAD 4
#endif
static const unsigned bases[] = {10, 16, 2, 36, 8, 3, 7, 35};
static uint64_t value(unsigned w) {
  static const uint64_t lim[] = {0, 1000, 0x8000, 1000000, 0x80000000ull, 0x100000000ull, 10000000000ull, 0x8000000000000000ull, 10000000000000000000ull};
  return lim[pick(w, "near")] + lsx_range(0, 2 * SPREAD - 1, "delta") - SPREAD;
}
extern "C" void h_numfmt() {
  unsigned base = bases[pick(BASES, "base")], kind = pick(6, "kind"); uint64_t v = value(kind < 4 ? 9 : 6); bool neg = false;
  TextFormatBuff<char> f; f("%1"); f.setBase(base); f("%1");
  switch (kind) {
    case 0: f << (natural)v; break;
    case 1: f << (integer)v; neg = (integer)v < 0; break;
    case 2: f << (lnatural)v; break;
    case 3: f << (linteger)v; neg = (long long)v < 0; break;
    case 4: f << (unsigned int)v; v = (unsigned int)v; break;
    case 5: f << (int)v; neg = (int)v < 0; v = (uint64_t)(int64_t)(int)v; break;
  }
  ConstStrA t = f.write(); checkDigits(t, v, neg, base, base > 36 ? 2 : 1);
  if (base == 10) {
    TextParser<char> p; CHECK(p("%1", t), "text parser: a field which accepts everything did not match");
    switch (kind) {
      case 0: case 2: { lnatural x = p[1]; CHECK(x == v, "number: read back as another number"); } break;
      case 1: case 3: { linteger x = p[1]; CHECK((uint64_t)x == v, "number: read back as another number"); } break;
      case 4: { unsigned int x = p[1]; CHECK(x == v, "number: read back as another number"); } break;
      case 5: { int x = p[1]; CHECK((uint64_t)(int64_t)x == v, "number: read back as another number"); } break;
    }
    if (neg) lsx_reach("negative");
  } else if (!neg) { TextParser<char> p; CHECK(p("%1", t), "text parser: a field which accepts everything did not match"); CHECK(p[1].basedNum(base) == v, "number: read back in its base as another number"); if (base == 16) CHECK(p[1].hex() == v, "number: read back from hex as another number"); }
  { integer x = 0; CHECK(parseSignedNumber(t.getFwIter(), x, base) && (uint64_t)x == v, "parseSignedNumber: another number"); }
  if (!neg) { natural x = 0; CHECK(parseUnsignedNumber(t.getFwIter(), x, base) && x == v, "parseUnsignedNumber: another number"); }
  lsx_reach("done");
}
extern "C" void h_tostring() {
  unsigned base = bases[pick(BASES, "base")]; bool up = pick(2, "upper case") != 0; uint64_t v = value(9);
  switch (pick(4, "kind")) {
    case 0: { ToString<natural> s(v, base, up); checkDigits((ConstStrA)s, v, false, base, up); CHECK(s.data()[s.length()] == 0, "ToString: no terminating zero"); } break;
    case 1: { ToString<integer> s((integer)v, base, up); checkDigits((ConstStrA)s, v, (integer)v < 0, base, up); } break;
    case 2: { ToString<integer, wchar_t> s((integer)v, base, up); checkDigits((ConstStrW)s, v, (integer)v < 0, base, up); } break;
    case 3: { ToString<natural, wchar_t> s(v, base, up); checkDigits((ConstStrW)s, v, false, base, up); } break;
  }
  lsx_reach("done");
}
// any text: it is read as the number it denotes, or refused
extern "C" void h_numtext() {
  char in[NB + 1]; unsigned n = 1 + pick(NB, "n"); lsx_bytes(in, n, "in"); ConstStrA t(in, n);
  unsigned sign = in[0] == '-' ? 2 : in[0] == '+' ? 1 : 0, b = sign ? 1 : 0; if (sign && n > 1) lsx_assume(in[1] != '+');
  unsigned kind = pick(6, "kind"), base = kind >= 4 ? bases[pick(BASES, "base")] : 10; unsigned e = b; uint64_t r = 0;
  while (e < n && digitOf((unsigned char)in[e]) < (int)base) { r = r * base + digitOf((unsigned char)in[e]); e++; }
  bool whole = e == n && e > b;
  if (kind < 4) {
    TextParser<char> p; CHECK(p("%1", t), "text parser: a field which accepts everything did not match"); CHECK(p[1].str().length() == n, "text parser: length of the field");
    bool ok = true; uint64_t got = 0;
    try { switch (kind) { case 0: { int x = p[1]; got = (uint64_t)(int64_t)x; } break; case 1: { linteger x = p[1]; got = x; } break; case 2: { unsigned int x = p[1]; got = x; } break; case 3: { lnatural x = p[1]; got = x; } break; } } catch (const Exception&) { ok = false; }
    if (kind >= 2 && sign == 2) CHECK(!ok, "number: a negative number read as unsigned");
    else { CHECK(ok == whole, "number: a text which is not a number accepted, or a number refused"); if (ok) { CHECK(got == (sign == 2 ? 0 - r : r), "number: wrong value"); lsx_reach("accepted"); } else lsx_reach("refused"); }
  } else {
    ConstStrA::Iterator i = t.getFwIter(); natural u = 0; integer s = 0; bool ok;
    if (kind == 4) { ok = parseSignedNumber(i, s, base); CHECK(ok == (e > b), "parseSignedNumber: result"); if (ok) CHECK((uint64_t)s == (sign == 2 ? 0 - r : r), "parseSignedNumber: value"); }
    else { if (sign) { e = 0; r = 0; b = 0; } ok = parseUnsignedNumber(i, u, base); CHECK(ok == (e > b), "parseUnsignedNumber: result"); if (ok) CHECK(u == r, "parseUnsignedNumber: value"); }
    if (ok) { unsigned rest = 0; while (i.hasItems()) { CHECK(i.getNext() == in[e + rest], "number: the rest of the input"); rest++; } CHECK(e + rest == n, "number: consumed other characters than the number"); }
  }
  lsx_reach("done");
}
// ---- formatting
#ifndef NEL
#define NEL 2
#endif
template<class T> struct Ref { T b[64]; unsigned n; Ref() : n(0) {} void c(T x) { b[n++] = x; } };
template<class T, class F> static void addArg(F& f, unsigned i, Ref<T>& a, T* store) {
  switch (i ? 1 + 2 * pick(2, "second argument") : pick(6, "argument")) {
    case 0: { unsigned k = pick(3, "length"); for (unsigned j = 0; j < k; j++) { store[j] = (T)lsx_range(1, 127, "text"); a.c(store[j]); } store[k] = 0; f << ConstStringT<T>(store, k); } break;
    case 1: { int x = (int)lsx_range(0, 15, "number") - 8; f << x; if (x < 0) { a.c('-'); x = -x; } a.c((T)('0' + x)); } break;
    case 2: { T x = (T)lsx_range(1, 127, "char"); f << x; a.c(x); } break;
    case 3: { static char tt[2][4]; char* t = tt[i]; t[0] = (char)lsx_range(1, 127, "narrow text"); t[1] = '-'; t[2] = 0; f << (const char*)t; a.c(t[0]); a.c('-'); } break;
    case 4: { static wchar_t tt[2][3]; wchar_t* t = tt[i]; t[0] = (wchar_t)lsx_range(1, 127, "wide text"); t[1] = 'w'; t[2] = 0; f << ConstStrW(t, 2); a.c((T)t[0]); a.c('w'); } break;
    case 5: { static const char e[1] = {0}; f << (const char*)e; } break;
  }
}
template<class T> static void fmt() {
  static T store[2][4]; T pat[48]; unsigned p = 0; Ref<T> arg[2]; Ref<T> want; unsigned nargs = pick(3, "arguments");
  TextFormatBuff<T> f; f.setNL(ConstStringT<T>()); T nl[2] = {'\r', '\n'}; f.setNL(ConstStringT<T>(nl, 2));
  struct El { unsigned kind, idx; T c; unsigned sp, al, fill; } el[NEL]; unsigned n = 1 + pick(NEL, "elements"); bool open = false;
  for (unsigned i = 0; i < n; i++) {
    El& e = el[i]; e.kind = pick(5, "element"); if (open && e.kind != 0 && e.kind != 2) pat[p++] = '%';   // the closing '%' may be left out before a plain character
    switch (e.kind) {
      case 0: e.c = (T)lsx_range(1, 127, "literal"); lsx_assume(e.c != '%'); lsx_assume(e.c != '\n'); if (open) lsx_assume(e.c < '0' || e.c > '9'); pat[p++] = e.c; open = false; break;
      case 1: pat[p++] = '%'; pat[p++] = '%'; open = false; break;
      case 2: pat[p++] = '\n'; open = false; break;
      case 3: e.idx = pick(3, "which"); pat[p++] = '%'; pat[p++] = (T)('1' + e.idx); open = true; break;
      case 4: e.idx = pick(2, "which"); e.al = pick(3, "align"); e.fill = pick(2, "fill"); e.sp = 1 + 3 * pick(2, "width");
        pat[p++] = '%'; pat[p++] = '{'; if (e.al == 1) pat[p++] = '-'; if (e.al == 2) pat[p++] = '+'; if (e.fill) pat[p++] = '.'; pat[p++] = (T)('0' + e.sp); pat[p++] = '}'; pat[p++] = (T)('1' + e.idx); open = true; break;
    }
  }
  pat[p] = 0; f(ConstStringT<T>(pat, p));
  for (unsigned i = 0; i < nargs; i++) addArg(f, i, arg[i], store[i]);
  for (unsigned i = 0; i < n; i++) {
    El& e = el[i];
    switch (e.kind) {
      case 0: want.c(e.c); break; case 1: want.c('%'); break; case 2: want.c('\r'); want.c('\n'); break;
      case 3: if (e.idx < nargs) for (unsigned j = 0; j < arg[e.idx].n; j++) want.c(arg[e.idx].b[j]); break;
      case 4: {
        static const Ref<T> none; const Ref<T>& a = e.idx < nargs ? arg[e.idx] : none; unsigned b = 0; T sign = 0;
        if (a.n && (a.b[0] == '-' || (a.b[0] == '+' && e.al == 2))) { sign = a.b[0]; b = 1; } else if (e.al == 2) sign = '+';
        unsigned len = a.n - b + (sign ? 1 : 0), space = len < e.sp ? e.sp - len : 0; bool right = e.al || e.fill; T fc = e.fill ? '.' : ' ';
        if (sign && e.fill && e.al) want.c(sign);
        if (right) for (unsigned j = 0; j < space; j++) want.c(fc);
        if (sign && !(e.fill && e.al)) want.c(sign);
        for (unsigned j = b; j < a.n; j++) want.c(a.b[j]);
        if (!right) for (unsigned j = 0; j < space; j++) want.c(fc);
        if (space) lsx_reach("filled");
      } break;
    }
  }
  ConstStringT<T> r; T out[64]; unsigned way = (p + nargs + n) % 3;
  if (way == 0) r = f.write(); else if (way == 1) { const T* z = f.writeCStr(); unsigned k = 0; while (z[k]) k++; r = ConstStringT<T>(z, k); } else { Sink<T, 60> s; f.output(s); for (unsigned i = 0; i < s.n; i++) out[i] = s.buf[i]; r = ConstStringT<T>(out, s.n); }
  CHECK(r.length() == want.n, "text format: length of the output"); for (unsigned i = 0; i < want.n; i++) CHECK(r[i] == want.b[i], "text format: text of the output");
  // the arguments are gone, the formatter can be used again
  T again[3] = {'%', '1', 0}; f(ConstStringT<T>(again, 2)); f << (T)'x'; r = f.write(); CHECK(r.length() == 1 && r[0] == 'x', "text format: a second use of the formatter");
  lsx_reach("done");
}
extern "C" void h_fmt() { fmt<char>(); }
extern "C" void h_fmtw() { fmt<wchar_t>(); }
// print(pattern) << arguments writes the text at the end of the statement, statement after statement
extern "C" void h_textout() {
  AutoArrayStream<char> arr; TextOut<AutoArrayStream<char>&> print(arr); char want[32]; unsigned n = 0;
  for (unsigned i = 0; i < 2; i++) {
    char a = lsx_range(1, 127, "a"); unsigned k = pick(3, "statement"); unsigned m = (unsigned)lsx_range(0, 9, "number");
    switch (k) { case 0: print("%1,%2") << a << m; want[n++] = a; want[n++] = ','; want[n++] = (char)('0' + m); break;
      case 1: print("%2%%1") << ConstStrA(&a, 1) << m; want[n++] = (char)('0' + m); want[n++] = a; break;
      case 2: print("x"); want[n++] = 'x'; break; }
    CHECK(arr.length() == n, "text out: length"); for (unsigned j = 0; j < n; j++) CHECK(arr.getArray()[j] == want[j], "text out: text");
  }
  lsx_reach("done");
}
// ---- patterns
#ifndef NIN
#define NIN 4
#endif
struct Match { bool ok; unsigned used; int fb[3], fl[3]; Match() : ok(false), used(0) { for (int i = 0; i < 3; i++) fb[i] = fl[i] = -1; } void f(unsigned i, unsigned b, unsigned l) { fb[i] = b; fl[i] = l; } };
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool sp(char c) { return c == ' ' || c == '\t'; }
static unsigned number(const char* s, unsigned b, unsigned n, bool sign) { unsigned i = b; if (sign && i < n && (s[i] == '+' || s[i] == '-')) i++; unsigned d = i; while (i < n && dig(s[i])) i++; return i > d ? i : 0; }
static const char* const patterns[] = {"ab", "a%", "%1,%2", "%d1%%", "%u1-%u2", "%[a-c]1%%", "%[^a-c]1%%", "%(1,2)[0-9]1%%", " a b", "%i1=%2", "a\nb", "%%%1%x", "\ta%", "\ba%", "%0b", "%(2,2)[a-c-]1%%[x]2", "%'\"\"1", "a_b", "%[*a-z]1b%2", "%(1,2)*1a%"};
enum { NPAT = sizeof(patterns) / sizeof(*patterns) };
static Match reference(unsigned p, const char* s, unsigned n) {
  Match m; unsigned i = 0, k;
  switch (p) {
    case 0: m.ok = n == 2 && s[0] == 'a' && s[1] == 'b'; m.used = 2; break;
    case 1: m.ok = n && s[0] == 'a'; m.used = 1; break;
    case 2: for (i = 1; i < n && s[i] != ','; i++) {} if (i + 1 < n) { m.ok = true; m.used = n; m.f(1, 0, i); m.f(2, i + 1, n - i - 1); } break;
    case 3: k = number(s, 0, n, true); if (k) { m.ok = true; m.used = k; m.f(1, 0, k); } break;
    case 4: k = number(s, 0, n, false); if (k && k < n && s[k] == '-') { i = number(s, k + 1, n, false); if (i == n && i) { m.ok = true; m.used = n; m.f(1, 0, k); m.f(2, k + 1, n - k - 1); } } break;
    case 5: while (i < n && s[i] >= 'a' && s[i] <= 'c') i++; if (i) { m.ok = true; m.used = i; m.f(1, 0, i); } break;
    case 6: while (i < n && !(s[i] >= 'a' && s[i] <= 'c')) i++; if (i) { m.ok = true; m.used = i; m.f(1, 0, i); } break;
    case 7: while (i < n && i < 2 && dig(s[i])) i++; if (i) { m.ok = true; m.used = i; m.f(1, 0, i); } break;
    case 8: while (i < n && sp(s[i])) i++; if (i < n && s[i] == 'a') { i++; while (i < n && sp(s[i])) i++; if (i + 1 == n && s[i] == 'b') { m.ok = true; m.used = n; } } break;
    case 9: while (i < n && (s[i] == '_' || (s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z') || (i && dig(s[i])))) i++; if (i && i + 1 < n && s[i] == '=') { m.ok = true; m.used = n; m.f(1, 0, i); m.f(2, i + 1, n - i - 1); } break;
    case 10: m.ok = n == 4 && s[0] == 'a' && s[1] == '\r' && s[2] == '\n' && s[3] == 'b'; m.used = 4; break;
    case 11: if (n >= 3 && s[0] == '%' && s[n - 1] == 'x') { m.ok = true; m.used = n; m.f(1, 1, n - 2); } break;
    case 12: while (i < n && sp(s[i])) i++; if (i && i < n && s[i] == 'a') { m.ok = true; m.used = i + 1; } break;
    case 13: while (i < n && (sp(s[i]) || s[i] == '\n' || s[i] == '\r' || s[i] == '\a' || s[i] == '\b')) i++; if (i && i < n && s[i] == 'a') { m.ok = true; m.used = i + 1; } break;
    case 14: m.ok = n >= 2 && s[n - 1] == 'b'; m.used = n; break;
    case 15: while (i < n && i < 2 && ((s[i] >= 'a' && s[i] <= 'c') || s[i] == '-')) i++; if (i == 2) { k = i; while (k < n && s[k] == 'x') k++; if (k > i && k == n) { m.ok = true; m.used = n; m.f(1, 0, 2); m.f(2, 2, n - 2); } } break;
    case 16: m.used = n; break; // checked apart
    case 17: if (n && s[0] == 'a') { i = 1; while (i < n && sp(s[i])) i++; if (i > 1 && i + 1 == n && s[i] == 'b') { m.ok = true; m.used = n; } } break;
    case 18: while (i < n && s[i] >= 'a' && s[i] <= 'z' && !(i && s[i] == 'b' && i + 1 < n)) i++; if (i && i + 1 < n && s[i] == 'b') { m.ok = true; m.used = n; m.f(1, 0, i); m.f(2, i + 1, n - i - 1); } break;
    case 19: for (i = 1; i <= 2 && i < n; i++) if (s[i] == 'a') { m.ok = true; m.used = i + 1; m.f(1, 0, i); break; } break;
  }
  return m;
}
template<class P> static void fields(const P& p, const Match& m, const char* s) {
  for (unsigned f = 1; f < 3; f++) if (m.fb[f] >= 0) { ConstStrA t = p[f]; CHECK((int)t.length() == m.fl[f], "text parser: length of a field"); for (int j = 0; j < m.fl[f]; j++) CHECK(t[j] == s[m.fb[f] + j], "text parser: text of a field"); lsx_reach("field"); }
}
extern "C" void h_pat() {
  char in[NIN + 1]; unsigned n = pick(NIN + 1, "length"), pi = pick(NPAT, "pattern"); lsx_bytes(in, n, "in"); char nl[2] = {'\r', '\n'};
  if (pi == 16) lsx_stop_path();
  Match m = reference(pi, in, n);
  switch (pick(2, "source")) {
    case 0: { TextParser<char> p; p.setNL(ConstStrA(nl, 2)); bool ok = p(patterns[pi], ConstStrA(in, n)); CHECK(ok == m.ok, "text parser: matches a text it should not, or the reverse"); if (ok) { lsx_reach("matched"); fields(p, m, in); } } break;
    case 1: {
      ConstStrA::Iterator src = ConstStrA(in, n).getFwIter(); TextIn<ConstStrA::Iterator> p(src); p.setNL(ConstStrA(nl, 2)); bool ok = p(patterns[pi]); CHECK(ok == m.ok, "text in: matches a text it should not, or the reverse"); if (ok) fields(p, m, in);
      unsigned at = ok ? m.used : 0; while (p.hasItems()) { CHECK(at < n, "text in: characters from nowhere"); char a = p.peek(), b = p.getNext(); CHECK(a == in[at] && b == in[at], "text in: the rest of the input is damaged"); at++; } CHECK(at == n, "text in: characters are lost");
    } break;
  }
  lsx_reach("done");
}
// two patterns one after another on one input: the second one starts where the first one ended
extern "C" void h_pat2() {
  static const unsigned first[] = {1, 3, 5, 7, 19}, second[] = {0, 1, 2, 3, 4, 18}; char in[NIN + 1]; unsigned n = pick(NIN + 1, "length"), a = first[pick(5, "first")], b = second[pick(6, "second")]; lsx_bytes(in, n, "in");
  ConstStrA::Iterator src = ConstStrA(in, n).getFwIter(); TextIn<ConstStrA::Iterator> p(src); unsigned at = 0;
  Match m = reference(a, in, n); bool pk = pick(2, "peek first") != 0; if (pk) { CHECK(p.peek(patterns[a]) == m.ok, "text in: peek"); if (m.ok) fields(p, m, in); }
  CHECK(p(patterns[a]) == m.ok, "text in: first pattern"); if (m.ok) { fields(p, m, in); at = m.used; }
  m = reference(b, in + at, n - at); bool ok = p(patterns[b]); CHECK(ok == m.ok, "text in: second pattern"); if (ok) { fields(p, m, in + at); at += m.used; lsx_reach("matched"); }
  CHECK(p("%"), "text in: an open pattern matches anything");
  while (p.hasItems()) { CHECK(at < n, "text in: characters from nowhere"); CHECK(p.getNext() == in[at], "text in: the rest of the input is damaged"); at++; } CHECK(at == n, "text in: characters are lost");
  lsx_reach("done");
}
// lines
extern "C" void h_lines() {
  char in[NIN + 3]; unsigned n = pick(NIN + 3, "length"); static const char* const nls[] = {"\n", "\r\n", "aab"}; unsigned w = pick(3, "new line"); const char* nl = nls[w]; unsigned nn = w == 0 ? 1 : w == 1 ? 2 : 3;
  for (unsigned i = 0; i < n; i++) { unsigned k = (unsigned)lsx_range(0, 2, "char"); in[i] = (char)lsx_ite(k == 2, 'x', lsx_ite(k == 1, nl[0], nl[nn - 1])); }
  unsigned at = 0; bool reader = pick(2, "reader") != 0; ConstStrA::Iterator src = ConstStrA(in, n).getFwIter(); TextIn<ConstStrA::Iterator> p(src); p.setNL(ConstStrA(nl, nn)); TextLineReader<ConstStrA::Iterator> r(src, ConstStrA(nl, nn));
  while (at < n) {
    unsigned e = at, len; for (;;) { if (e == n) { len = n - at; break; } e++; bool end = e - at >= nn; for (unsigned j = 0; end && j < nn; j++) end = in[e - nn + j] == nl[j]; if (end) { len = e - nn - at; lsx_reach("line"); break; } }
    ConstStrA t; if (reader) { CHECK(r.hasItems(), "text lines: a line is missing"); t = r.peek(); CHECK(t.length() == len, "text lines: length of a line"); t = r.getNext(); }
    else { if (at == 0) { CHECK(p.peekLine(), "text lines: peek"); t = p[1]; CHECK(t.length() == len, "text lines: length of a peeked line"); } CHECK(p.readLine(), "text lines: a line is missing"); t = p[1]; }
    CHECK(t.length() == len, "text lines: length of a line"); for (unsigned j = 0; j < len; j++) CHECK(t[j] == in[at + j], "text lines: text of a line"); at = e;
  }
  CHECK(!(reader ? r.hasItems() : p.readLine()), "text lines: a line from nowhere");
  lsx_reach("done");
}
