#include "lsx.h"
#include "lightspeed/utils/configParser.tcc"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/containers/string.tcc"
using namespace LightSpeed;
static unsigned pick(unsigned n, const char* w) { return n <= 1 ? 0 : lsx_concretize(lsx_range(0, n - 1, w)); }
#ifndef NB
#define NB 2
#endif
struct Txt { char b[160]; unsigned n; Txt() : n(0) {} void c(int x) { b[n++] = (char)x; } void s(const char* x) { while (*x) c(*x++); } ConstStrA str() const { return ConstStrA(b, n); } };
template<class S> static bool eq(const S& a, const char* b, unsigned n) { if (a.length() != n) return false; bool ok = true; for (unsigned i = 0; i < n; i++) ok = ok & (a[i] == b[i]); return ok; }
static unsigned len(const char* s) { unsigned n = 0; while (s[n]) n++; return n; }
static bool sp(int c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
template<class S> static void isTrimmed(const S& got, const char* b, unsigned n, const char* what) { unsigned i = 0; while (i < n && sp((unsigned char)b[i])) i++; while (n > i && sp((unsigned char)b[n - 1])) n--; CHECK(eq(got, b + i, n - i), what); }
typedef ConfigParser<ConstStrA::Iterator> CP;
// one field with an arbitrary value
extern "C" void h_inivalue() {
  Txt t; if (pick(2, "before")) t.s("# c\n \r\n"); t.s("[ s 1 ]"); t.s(pick(2, "nl") ? "\r\n" : "\n"); if (pick(2, "comment")) t.s("#x=[1]\n"); if (pick(2, "indent")) t.s(" \t"); t.s("na"); unsigned sn = pick(3, "spaces"); for (unsigned i = 0; i < sn; i++) t.c(' '); t.c('=');
  char v[NB + 1]; unsigned n = pick(NB + 1, "len"); for (unsigned i = 0; i < n; i++) { v[i] = (char)lsx_u8("value"); lsx_assume((v[i] != '\r') & (v[i] != '\n')); t.c(v[i]); } if (n) lsx_assume(v[0] != '"');
  unsigned end = pick(3, "end"); if (end == 1) t.c('\n'); else if (end == 2) t.s("\r\n");
  CP p(t.str().getFwIter()); CHECK(!p.getNextLine(), "ini: a section is not a field"); CHECK(eq(p.getSection(), "s 1", 3), "ini: another section name");
  CHECK(p.getNextLine(), "ini: field not found"); CHECK(eq(p.curVar, "na", 2), "ini: another field name"); isTrimmed(p.curValue, v, n, "ini: another value");
  CHECK(p.getField("NA") != 0 && p.getField("n") == 0, "ini: field found under another name"); CP::Str g; CHECK(p.get("na", g) && g == p.curValue, "ini: get"); CHECK(eq(p.getSection(), "s 1", 3), "ini: section name changed");
  CHECK(!p.getNextLine() && p.getSection().empty(), "ini: end of the input not reported"); lsx_reach("done");
}
extern "C" void h_iniquoted() {
  Txt t; t.s("[s]\nx=\""); char v[NB + 2]; unsigned n = pick(NB + 1, "len"), m = 0;
  for (unsigned i = 0; i < n; i++) {
    static const char es[] = "ntra0b\\\"", ev[] = "\n\t\r\a\0\b\\\"";
    switch (pick(4, "kind")) {
      case 0: { unsigned char c = lsx_u8("char"); lsx_assume((c != '\\') & (c != '"') & (c != '\r') & (c != '\n')); t.c(c); v[m++] = c; } break;
      case 1: { unsigned k = pick(8, "escape"); t.c('\\'); t.c(es[k]); v[m++] = k == 0 ? '\n' : k == 1 ? '\t' : k == 2 ? '\r' : k == 3 ? '\a' : k == 4 ? 0 : k == 5 ? '\b' : k == 6 ? '\\' : '"'; } break;
      case 2: { unsigned char c = lsx_u8("other"); lsx_assume((c != 'n') & (c != 't') & (c != 'r') & (c != 'a') & (c != '0') & (c != 'b') & (c != '\r') & (c != '\n')); t.c('\\'); t.c(c); v[m++] = c; } break;
      case 3: t.s(pick(2, "nl") ? "\\\n" : "\\\r\n  "); break;
    }
  }
  // white space right after a broken line is skipped by design
  t.s("\""); if (pick(2, "end")) t.s("\ny=1");
  bool brk = false, amb = false; for (unsigned i = 0; i < t.n; i++) { if (t.b[i] == '\n' && i > 5) { unsigned j = i + 1; while (j < t.n && (t.b[j] == ' ' || t.b[j] == '\r' || t.b[j] == '\n')) j++; if (j < t.n && sp((unsigned char)t.b[j])) amb = true; } } lsx_assume(!amb);
  CP p(t.str().getFwIter()); p.getNextLine(); CHECK(p.getNextLine(), "ini: quoted field not found"); isTrimmed(p.curValue, v, m, "ini: another quoted value"); lsx_reach("done");
}
// a whole file
struct Rec { unsigned s, f; char v; };
static const char* secs[] = {"ab", "aB", "b", "zz"}; static const char* names[] = {"x", "X", "px", "PY"};
static int sid(unsigned s) { return s == 1 ? 0 : s; } static int fid(unsigned f) { return f == 1 ? 0 : f; }
#ifndef NF
#define NF 3
#endif
extern "C" void h_inifile() {
  Txt t; Rec r[NF]; unsigned cur = 99, n = NF;
  for (unsigned i = 0; i < n; i++) { unsigned s = pick(3, "section"), f = pick(4, "name"); char v = i == 1 && pick(2, "same value") ? '0' : '0' + i;
    if (s != cur) { t.c('['); t.s(secs[s]); t.s("]\n"); cur = s; } t.s(names[f]); t.c('='); t.c(v); if (i + 1 < n) t.c('\n'); r[i].s = s; r[i].f = f; r[i].v = v; }
  IniConfig ini(t.str().getFwIter());
  bool en = pick(2, "enumerate"); unsigned qs = pick(4, "ask section"), qf = en ? 0 : pick(4, "ask name"), qi = en ? 0 : pick(3, "ask index"); unsigned seen = 0; int hit = -1; for (unsigned i = 0; i < n; i++) if (sid(r[i].s) == sid(qs) && fid(r[i].f) == fid(qf) && seen++ == qi) hit = i;
  IniConfigSection sec = ini.openSection(secs[qs]); ConstStrA got; bool ok = sec.get(got, names[qf], qi); CHECK(ok == (hit >= 0), "ini: a field is found exactly if it is there"); if (ok) CHECK(got.length() == 1 && got[0] == r[hit].v, "ini: value of another field");
  if (qf == 2 || qf == 3) { IniConfigT::Section px = sec.openPrefix("p"); StringA v; CHECK(px.get(v, names[qf] + 1, qi) == ok, "ini: prefix"); if (ok) CHECK(v.length() == 1 && v[0] == r[hit].v, "ini: value of another field through a prefix"); }
  try { StringA v; sec.required(v, names[qf], qi); CHECK(ok, "ini: a missing required field not reported"); CHECK(v.length() == 1 && v[0] == r[hit].v, "ini: value of another required field"); } catch (const IniConfigT::RequiredFieldException&) { CHECK(!ok, "ini: a required field reported missing"); }
  if (!en) { lsx_reach("done"); return; } bool pref = pick(2, "prefix"); bool used[NF]; unsigned want = 0; for (unsigned i = 0; i < n; i++) { used[i] = false; want += sid(r[i].s) == sid(qs) && (!pref || r[i].f == 2 || r[i].f == 3); }
  IniConfigT::Iterator it = ini.enumFields(secs[qs], pref ? ConstStrA("P") : ConstStrA()); unsigned cnt = 0;
  while (it.hasItems()) { CHECK(cnt < want, "ini: more fields enumerated than there are"); IniConfigT::FieldVal e = it.getNext(); cnt++; bool found = false;
    for (unsigned i = 0; i < n && !found; i++) if (!used[i] && sid(r[i].s) == sid(qs) && (!pref || r[i].f == 2 || r[i].f == 3) && StrCmpCI<char>()(e.field, ConstStrA(names[r[i].f])) == cmpResultEqual) { CHECK(e.val.length() == 1 && e.val[0] == r[i].v, "ini: enumerated with the value of another field"); found = used[i] = true; }
    CHECK(found, "ini: enumerated a field which is not there"); }
  CHECK(cnt == want, "ini: fields missing in the enumeration"); lsx_reach("done");
}
extern "C" void h_initypes() {
  Txt t; t.s("[s]\na="); unsigned v = lsx_range(0, 31, "number") * 29; bool neg = pick(2, "neg"); if (neg) t.c('-'); t.c('0' + v / 100); t.c('0' + v / 10 % 10); t.c('0' + v % 10); static const char* bs[] = {"true", "yes", "on", "false", "no", "off", "1", "0", "7"}; unsigned b = pick(9, "bool"); t.s("\nb="); t.s(bs[b]); t.s("\n[s.sub]\nc=1");
  IniConfig ini(t.str().getFwIter()); IniConfigSection s = ini.openSection("s"); integer i = 0; CHECK(s.get(i, "a") && i == (neg ? -(integer)v : (integer)v), "ini: another number"); if (!neg) { natural n = 0; CHECK(s.get(n, "a") && n == v, "ini: another number"); }
  bool x = pick(2, "initial"); bool y = x; CHECK(s.get(x, "b") && x == (b < 3 || b == 6 || b == 8), "ini: another truth value"); CHECK(!s.get(y, "none") && y == y, "ini: missing field found"); natural k = 5; CHECK(!s.get(k, "none") && k == 5, "ini: value of a missing field"); CHECK(s.openSection("sub").get(k, "c") && k == 1, "ini: nested section"); lsx_reach("done");
}
extern "C" void h_inierr() {
  static const char* bad[] = {"x", "x y", "q=\"abc", "[s"}; unsigned b = pick(4, "bad"); bool last = pick(2, "last"), ign = pick(2, "ignore"); Txt t; t.s("[s]\na=1\n"); t.s(bad[b]); if (!last) t.s("\nb=2\n[u]\nc=3");
  try { IniConfig ini(t.str().getFwIter(), ign); CHECK(ign, "ini: malformed line accepted"); natural v = 0; CHECK(ini.openSection("s").get(v, "a") && v == 1, "ini: field before a malformed line lost"); if (!last) { CHECK(ini.openSection("u").get(v, "c") && v == 3, "ini: field after a malformed line lost"); CHECK(ini.openSection("s").get(v, "b") && v == 2, "ini: field after a malformed line lost"); } lsx_reach("ignored"); }
  catch (const Exception&) { CHECK(!ign, "ini: malformed line not ignored"); lsx_reach("refused"); }
}
// sections are values: copied, assigned, prefixed, enumerated
extern "C" void h_inisec() {
  Txt t; t.s("[b]\nx=0\npx=1\npqx=2\n[ab]\nx=3\npx=4\nppx=5\n[b]\nqx=6\n"); IniConfig ini(t.str().getFwIter());
  static const char* ss[] = {"b", "ab", "none"}; static const char* ps[] = {"", "p", "pq", "q", "pp"}; static const char* all[] = {"x", "px", "pqx", "x", "px", "ppx", "qx"}; static const int as[] = {0, 0, 0, 1, 1, 1, 0};
  unsigned s1 = pick(3, "section"), p1 = pick(5, "prefix"), s2 = pick(3, "old section"), p2 = pick(5, "old prefix"), how = pick(4, "how");
  IniConfigSection a = ini.openSection(ss[s1]); if (how == 3 && len(ps[p1]) == 2) { char c[2] = {ps[p1][0], 0}; a = a.openPrefix(c); a = a.openPrefix(ps[p1] + 1); } else if (p1) a = a.openPrefix(ps[p1]);
  IniConfigSection b = how ? ini.openSection(ss[s2]).openPrefix(ps[p2]) : a; if (how == 1) b = a; else if (how == 2) { IniConfigSection& r = (b = a); CHECK(&r == &b, "ini: assignment"); b = b; } else if (how == 3) b = a;
  CHECK(b.getSection() == ss[s1] && b.getPrefix() == ps[p1] && &b.getConfig() == &ini, "ini: a copied section is another one"); unsigned q = pick(3, "field"); static const char* fs[] = {"x", "px", "qx"};
  int hit = -1; char f[8]; unsigned n = 0; for (unsigned i = 0; ps[p1][i]; i++) f[n++] = ps[p1][i]; for (unsigned i = 0; fs[q][i]; i++) f[n++] = fs[q][i]; for (unsigned i = 0; i < 7; i++) if ((unsigned)as[i] == s1 && eq(ConstStrA(all[i]), f, n)) hit = i;
  natural v = 99; CHECK(b.get(v, fs[q]) == (hit >= 0), "ini: a field of a copied section is found exactly if it is there"); CHECK(v == (hit >= 0 ? (natural)hit : 99), "ini: value of another field of a copied section"); unsigned want = 0, got = 0; for (unsigned i = 0; i < 7; i++) want += (unsigned)as[i] == s1 && len(all[i]) >= len(ps[p1]) && eq(ConstStrA(all[i], len(ps[p1])), ps[p1], len(ps[p1]));
  for (IniConfigT::Iterator it = b.getFwIter(); it.hasItems() && got < 9; got++) { IniConfigT::FieldVal e = it.peek(); IniConfigT::FieldVal e2 = it.getNext(); CHECK(e.field == e2.field && e.val == e2.val, "ini: peek"); unsigned k = e.val[0] - '0'; CHECK(e.val.length() == 1 && k < 7 && (unsigned)as[k] == s1 && e.field == ConstStrA(all[k]), "ini: a field of another section enumerated"); }
  CHECK(got == want, "ini: fields of a copied section missing in the enumeration"); lsx_reach("done");
}
