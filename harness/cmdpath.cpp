// Command line and file paths
#include "lsx.h"
#include <exception>
#include "lightspeed/base/framework/cmdLineIterator.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/exceptions/invalidNumberFormat.h"
#include "lightspeed/utils/FilePath.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/string.tcc"
using namespace LightSpeed;
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
#ifndef NA
#define NA 2
#endif
#ifndef NC
#define NC 3
#endif
static wchar_t chr() { return (wchar_t)lsx_range(0, 1, "dash") ? L'-' : (wchar_t)lsx_range('+', 'z', "chr"); }
extern "C" void h_cmdline() {
  wchar_t b[NA + 1][NC]; unsigned len[NA + 1]; ConstStrW a[NA + 1]; len[0] = 1; b[0][0] = L'p'; unsigned n = 1 + pick(NA + 1, "args"); wchar_t* hp[NA + 1];
  for (unsigned i = 0; i < n; i++) { if (i) { len[i] = pick(NC + 1, "len"); for (unsigned j = 0; j < len[i]; j++) b[i][j] = lsx_range(0, 1, "dash") ? L'-' : (wchar_t)lsx_range('+', 'z', "chr"); } hp[i] = new wchar_t[len[i]]; for (unsigned j = 0; j < len[i]; j++) hp[i][j] = b[i][j]; a[i] = ConstStrW(hp[i], len[i]); }
  IApp::Args args(ConstStringT<ConstStrW>(a, n)); CmdLineIterator it(args); unsigned p = 1, c = 0; unsigned steps = 0;
  while (p < n) { CHECK(it.hasItems(), "has items"); CHECK(steps++ < 20, "steps");
    bool dash = c == 0 && len[p] > 1 && b[p][0] == L'-', sw = c > 0 || (dash && b[p][1] != L'-'), lng = c == 0 && dash && !sw;
    unsigned op = pick(3, "op");
    if (op == 0) { bool look = pick(2, "peek"); CmdLineItem x; if (look) x = it.peek(); CmdLineItem y = it.getNext(); if (look) CHECK(x.itemType == y.itemType && x.value == y.value, "peek shows the next item");
      if (sw) { unsigned k = c ? c : 1; CHECK(y.itemType == CmdLineItem::shortSwitch && y.value.length() == 1 && y.value[0] == b[p][k], "short switch"); c = k + 1; if (c >= len[p]) { c = 0; p++; } }
      else if (lng) { CHECK(y.itemType == CmdLineItem::longSwitch && y.value == ConstStrW(b[p] + 2, len[p] - 2), "long switch"); p++; }
      else { CHECK(y.itemType == CmdLineItem::text && y.value == ConstStrW(b[p], len[p]), "text"); p++; } }
    else if (op == 1) { ConstStrW x = it.peekText(), y = it.getNextText(); CHECK(x == y && y == ConstStrW(b[p] + c, len[p] - c), "rest of the argument"); p++; c = 0; }
    else { CHECK(it.getRemainArgs().length() == n - p && it.getRemainArgs().data() == a + p, "remaining arguments"); break; } }
  if (p >= n) { CHECK(!it.hasItems(), "no more items"); bool t = false; switch (pick(3, "end")) { case 0: try { it.getNext(); } catch (const IteratorNoMoreItems&) { t = true; } break; case 1: try { it.peekText(); } catch (const IteratorNoMoreItems&) { t = true; } break; default: try { it.getNextNumber(); } catch (const IteratorNoMoreItems&) { t = true; } } CHECK(t, "end is reported"); CHECK(it.getRemainArgs().empty(), "nothing remains"); }
  for (unsigned i = 0; i < n; i++) delete[] hp[i]; lsx_reach("done");
}
extern "C" void h_number() {
  unsigned n = pick(NC + 2, "len"); wchar_t* s = new wchar_t[n]; for (unsigned i = 0; i < n; i++) s[i] = (wchar_t)lsx_range('+', '9', "chr"); ConstStrW a[2] = {ConstStrW(L"p"), ConstStrW(s, n)}; IApp::Args args(ConstStringT<ConstStrW>(a, 2)); CmdLineIterator it(args);
  bool sgn = n && (s[0] == '+' || s[0] == '-'), ok = n > (unsigned)sgn; integer v = 0; for (unsigned i = sgn; i < n; i++) { if (s[i] < '0' || s[i] > '9') { if (i == (unsigned)sgn) ok = false; break; } v = v * 10 + (s[i] - '0'); } if (n && s[0] == '-') v = -v;
  integer r = 0; bool t = false; try { r = it.getNextNumber(); } catch (const InvalidNumberFormatException&) { t = true; } CHECK(t == !ok, "number or not"); if (ok) CHECK(r == v, "number"); CHECK(!it.hasItems(), "argument is consumed"); delete[] s; lsx_reach("done");
}
// paths
static wchar_t out_[64]; static unsigned on;
static void put(wchar_t c) { out_[on++] = c; } static void puts_(const wchar_t* s, unsigned n) { for (unsigned i = 0; i < n; i++) put(s[i]); }
static void cut() { while (on > 0 && out_[on - 1] != L'/') on--; if (on > 0) on--; }
static bool eqs(const ConstStrW& s, const wchar_t* o, unsigned n) { if (s.length() != n) return false; bool e = true; for (unsigned i = 0; i < n; i++) e &= s[i] == o[i]; return e; }
static bool eq(const ConstStrW& s) { return eqs(s, out_, on); }
static wchar_t nm() { return lsx_range(0, 1, "dot") ? L'.' : L'x'; }
extern "C" void h_path() {
  wchar_t base[24]; unsigned bl = 0, comps = pick(3, "folders"); bool isDir = pick(2, "isDir"); for (unsigned i = 0; i < comps; i++) { base[bl++] = L'/'; base[bl++] = L'a' + i; } base[bl++] = L'/'; unsigned fstart = bl, fl = isDir ? 0 : 1 + pick(3, "filename"); for (unsigned i = 0; i < fl; i++) base[bl++] = nm(); if (fl == 2) lsx_assume(!(base[fstart] == 46 && base[fstart + 1] == 46));
  unsigned cut1 = isDir && pick(2, "nosep") ? 1 : 0; if (cut1) lsx_assume(comps > 0); FilePath f = cut1 ? FilePath(String(ConstStrW(base, bl - 1)), true) : isDir && pick(2, "flag") ? FilePath(String(ConstStrW(base, bl)), true) : FilePath(String(ConstStrW(base, bl))); CHECK(eqs(f, base, bl), "text");
  CHECK(eqs(f.getPath(), base, fstart - 1), "folder"); CHECK(eqs(f.getFilename(), base + fstart, fl), "file name"); int dot = -1; for (unsigned i = 0; i < fl; i++) if (base[fstart + i] == L'.') dot = i;
  CHECK(eqs(f.getTitle(), base + fstart, dot >= 0 ? dot : fl), "title"); CHECK(eqs(f.getExtension(), base + fstart + dot + 1, dot >= 0 ? fl - dot - 1 : 0), "extension"); CHECK(f.getDrive().empty(), "drive"); CHECK(eqs(f.getParentPath(), base, fstart > 2 ? fstart - 3 : 0), "parent folder");
  wchar_t r[3] = {nm(), nm(), nm()}; unsigned rl = 1 + pick(3, "rel"); ConstStrW rel(r, rl); on = 0; puts_(base, fstart - 1); FilePath g;
  switch (pick(11, "op")) {
    case 0: g = f / rel; put(L'/'); puts_(r, rl); break;
    case 1: g = f / rel / ConstStrW(L"q"); put(L'/'); puts_(r, rl); put(L'/'); put(L'q'); break;
    case 2: g = f / parent; cut(); put(L'/'); break;
    case 3: g = f / parent / parent; cut(); cut(); put(L'/'); break;
    case 4: g = f / parent / rel; cut(); put(L'/'); puts_(r, rl); break;
    case 5: g = f / nil; put(L'/'); break;
    case 6: g = f / rel / parent; put(L'/'); break;
    case 7: g = f / rel / parent / parent; cut(); put(L'/'); break;
    case 8: g = f / ConstStrW(L"/abs") / rel; on = 0; puts_(L"/abs/", 5); puts_(r, rl); break;
    case 9: { wchar_t two[5] = {r[0], r[1], L'y', L'/', L'z'}; g = f / ConstStrW(two, 5) / parent; put(L'/'); puts_(two, 3); put(L'/'); break; }
    default: { char na[3] = {(char)r[0], (char)r[1], (char)r[2]}; g = f / ConstStrA(na, rl); put(L'/'); puts_(r, rl); break; } }
  CHECK(eq(g), "composed path"); lsx_reach("done");
}
