#include "conv.h"
#include "lightspeed/utils/urlencode.h"
#include "lightspeed/utils/queryParser.h"
#include "lightspeed/base/streams/utf.h"
#include "lightspeed/base/iter/iteratorFilter.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/utf.h"
#include "lightspeed/base/exceptions/iterator.h"
#ifndef NP
#define NP 5
#endif
static bool unres(char x) { return (x >= 'A' && x <= 'Z') || (x >= 'a' && x <= 'z') || (x >= '0' && x <= '9') || x == '_' || x == '-'; }
static char hexU(unsigned v) { return v < 10 ? '0' + v : 'A' + v - 10; }
template<class F, class S> static void filterAll(const F& init, const char* in, unsigned n, S& out) {
  F f(init); unsigned i = 0;
  for (;;) { bool p = false; while (i < n && f.needItems()) { f.input(in[i++]); p = true; if (f.hasItems()) break; } while (f.hasItems()) { if (!f.needItems() || i == n) { out.write(f.output()); p = true; } else break; } if (!p) break; }
}
extern "C" void h_url() {
  unsigned n = lsx_concretize(lsx_range(0, NB, "n")), m = lsx_concretize(lsx_range(0, 4, "encMode")), m2 = lsx_concretize(lsx_range(0, 1, "decoder")) ? (m + n) & 3 : 4;
  char in[NB + 1]; lsx_bytes(in, n, "in");
  Sink<char, 3 * NB + 1> enc; if (m < 4) convertBy(m, UrlEncodeConvert(), in, n, enc); else { Filter<UrlEncoder>::Write<Sink<char, 3 * NB + 1>&> w(enc); for (unsigned i = 0; i < n; i++) w.write(in[i]); }
  unsigned o = 0;
  for (unsigned i = 0; i < n; i++) {
    if (unres(in[i])) { CHECK(o < enc.n && enc.buf[o] == in[i], "url: an unreserved character must be left alone"); o++; }
    else { unsigned z = (unsigned char)in[i]; CHECK(o + 2 < enc.n && enc.buf[o] == '%' && enc.buf[o + 1] == hexU(z >> 4) && enc.buf[o + 2] == hexU(z & 15), "url: any other character must become %XX"); o += 3; }
  }
  CHECK(o == enc.n, "url: encoded length");
  Sink<char, NB + 1> dec; if (m2 < 4) convertBy(m2, UrlDecodeConvert(), enc.buf, enc.n, dec); else { Filter<UrlDecoder>::Read<ConstStrA::Iterator> r(ConstStrA(enc.buf, enc.n).getFwIter()); while (r.hasItems()) dec.write(r.getNext()); }
  CHECK(dec.n == n, "url: decoded length"); for (unsigned i = 0; i < n; i++) CHECK(dec.buf[i] == in[i], "url: decode(encode(x)) != x");
  lsx_reach("done");
}
// hand-written escapes: either case of hex digits, '+' for space, plain characters
extern "C" void h_urldec() {
  unsigned n = lsx_concretize(lsx_range(0, NB, "n")), m = lsx_concretize(lsx_range(0, 4, "mode")); char in[3 * NB + 1]; char ref[NB + 1]; unsigned o = 0;
  for (unsigned i = 0; i < n; i++) switch (lsx_concretize(lsx_range(0, 1, "kind"))) {
    case 0: { unsigned h = lsx_range(0, 15, "hi"), l = lsx_range(0, 15, "lo"); bool u = lsx_bool("upper"), v = lsx_bool("upper2"); in[o++] = '%'; in[o++] = (u ? "0123456789ABCDEF" : "0123456789abcdef")[h]; in[o++] = (v ? "0123456789ABCDEF" : "0123456789abcdef")[l]; ref[i] = (char)(h << 4 | l); break; }
    case 1: { char c = lsx_u8("c"); lsx_assume(c != '%'); in[o++] = c; ref[i] = lsx_ite(c == '+', ' ', (unsigned char)c); break; }
  }
  Sink<char, NB + 1> dec; if (m < 4) convertBy(m, UrlDecodeConvert(), in, o, dec); else { Filter<UrlDecoder>::Read<ConstStrA::Iterator> r(ConstStrA(in, o).getFwIter()); while (r.hasItems()) dec.write(r.getNext()); }
  CHECK(dec.n == n, "url: decoded length"); for (unsigned i = 0; i < n; i++) CHECK(dec.buf[i] == ref[i], "url: wrong decoded character");
  lsx_reach("done");
}
extern "C" void h_urljunk() {
  unsigned n = lsx_concretize(lsx_range(0, NB, "n")), m = lsx_concretize(lsx_range(0, 4, "mode")); char in[NB + 1]; lsx_bytes(in, n, "in"); Sink<char, NB + 1> dec;
  try { if (m < 4) convertBy(m, UrlDecodeConvert(), in, n, dec); else { Filter<UrlDecoder>::Read<ConstStrA::Iterator> r(ConstStrA(in, n).getFwIter()); while (r.hasItems()) dec.write(r.getNext()); } } catch (const IteratorNoMoreItems&) { lsx_reach("truncated"); }
  lsx_reach("done");
}
// ---- query string
extern "C" void h_query() {
  unsigned n = lsx_concretize(lsx_range(0, NP, "n")); char in[NP + 1];
  for (unsigned i = 0; i < n; i++) in[i] = "?&=a+"[lsx_concretize(lsx_range(0, 4, "c"))];
  if (n && lsx_concretize(lsx_range(0, 1, "arbitrary last"))) { char c = lsx_u8("last"); lsx_assume(c != '%'); in[n - 1] = c; }
  unsigned path = 0; while (path < n && in[path] != '?') path++;
  QueryParser q(ConstStrA(in, n));
  CHECK(q.getPath().length() == path, "query: path ends at the first '?'");
  for (unsigned i = 0; i < path; i++) CHECK(q.getPath()[i] == in[i], "query: path text");
  unsigned b = path < n ? path + 1 : n;
  CHECK(q.getQuery().length() == n - b, "query: query part"); for (unsigned i = b; i < n; i++) CHECK(q.getQuery()[i - b] == in[i], "query: query text");
  unsigned fields = 0;
  while (b < n) {
    unsigned e = b; while (e < n && in[e] != '&') e++;
    if (e > b) {
      CHECK(q.hasItems(), "query: a field is missing");
      unsigned k = b; while (k < e && in[k] != '=') k++;
      QueryField f = q.peek(); CHECK(f.name.length() == k - b, "query: field name length"); for (unsigned i = b; i < k; i++) CHECK(f.name[i - b] == in[i], "query: field name");
      QueryField g = q.getNext(); CHECK(f.name.data() == g.name.data() && f.value.length() == g.value.length(), "query: peek() and getNext() differ");
      if (k == e) { CHECK(g.value.length() == 1 && g.value[0] == '1', "query: a field without '=' has the value 1"); }
      else { CHECK(g.value.length() == e - k - 1, "query: value length"); for (unsigned i = k + 1; i < e; i++) CHECK(g.value[i - k - 1] == (char)lsx_ite(in[i] == '+', ' ', (unsigned char)in[i]), "query: value text"); }
      fields++; if (fields == 2) lsx_reach("two fields");
    }
    b = e + 1;
  }
  CHECK(!q.hasItems(), "query: extra field");
  lsx_reach("done");
}
// three fields with names and values of any length up to one character
extern "C" void h_query3() {
  char in[16], nm[3], vl[3]; unsigned n = 0; int nl[3], v[3];
  for (unsigned f = 0; f < 3; f++) {
    if (f) in[n++] = '&';
    nl[f] = lsx_concretize(lsx_range(0, 1, "name length")); v[f] = (int)lsx_concretize(lsx_range(0, 2, "value length")) - 1; // -1: no '='
    if (nl[f] == 0 && v[f] < 0) v[f] = 0;
    if (nl[f]) { nm[f] = 'a' + f; in[n++] = nm[f]; }
    if (v[f] >= 0) in[n++] = '=';
    if (v[f] > 0) { vl[f] = lsx_u8("value"); lsx_assume((vl[f] != '%') & (vl[f] != '&')); in[n++] = vl[f]; }
  }
  char full[20] = "/?"; memcpy(full + 2, in, n); QueryParser q(ConstStrA(full, n + 2));
  for (unsigned f = 0; f < 3; f++) {
    CHECK(q.hasItems(), "query: a field is missing"); QueryField g = q.getNext();
    CHECK((int)g.name.length() == nl[f] && (!nl[f] || g.name[0] == nm[f]), "query: field name");
    if (v[f] < 0) CHECK(g.value.length() == 1 && g.value[0] == '1', "query: a field without '=' has the value 1");
    else { CHECK((int)g.value.length() == v[f], "query: value length"); if (v[f]) CHECK(g.value[0] == (char)lsx_ite(vl[f] == '+', ' ', (unsigned char)vl[f]), "query: value text"); }
  }
  CHECK(!q.hasItems(), "query: extra field");
  lsx_reach("done");
}
// ---- UTF-8
static unsigned utfRef(uint32_t c, unsigned char* o) {
  if (c < 0x80) { o[0] = c; return 1; }
  if (c < 0x800) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
  if (c < 0x10000) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
  o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4;
}
extern "C" void h_utf8() {
  unsigned n = lsx_concretize(lsx_range(0, NU, "n")), m = lsx_concretize(lsx_range(0, 4, "mode")), m2 = (m + n) % 5;
  wchar_t in[NU + 1]; unsigned char ref[4 * NU + 1]; unsigned r = 0;
  for (unsigned i = 0; i < n; i++) { uint32_t c = lsx_range(0, 0x10FFFF, "codepoint"); in[i] = (wchar_t)c; r += utfRef(c, ref + r); }
  Sink<char, 4 * NU + 1> enc;
  if (m < 4) convertBy(m, WideToUtf8Convert(), in, n, enc); else { Filter<WideToUtf8Filter>::Write<Sink<char, 4 * NU + 1>&> w(enc); for (unsigned i = 0; i < n; i++) w.write(in[i]); }
  CHECK(enc.n == r, "utf8: encoded length"); for (unsigned i = 0; i < r; i++) CHECK((unsigned char)enc.buf[i] == ref[i], "utf8: encoded bytes differ from the standard form");
  Sink<wchar_t, NU + 1> dec;
  if (m2 < 4) convertBy(m2, Utf8ToWideConvert(), enc.buf, enc.n, dec); else { Filter<Utf8ToWideFilter>::Read<ConstStrA::Iterator> rd(ConstStrA(enc.buf, enc.n).getFwIter()); while (rd.hasItems()) dec.write(rd.getNext()); }
  CHECK(dec.n == n, "utf8: decoded length"); for (unsigned i = 0; i < n; i++) CHECK(dec.buf[i] == in[i], "utf8: decode(encode(x)) != x");
  lsx_reach("done");
}
// full 31-bit range still round trips (longer historic forms)
extern "C" void h_utf8wide() {
  wchar_t c = (wchar_t)lsx_range(0, 0x7FFFFFFF, "code"); unsigned m = lsx_concretize(lsx_range(0, 1, "mode"));
  Sink<char, 8> enc; if (m) convertBy(0, WideToUtf8Convert(), &c, 1, enc); else { Filter<WideToUtf8Filter>::Write<Sink<char, 8>&> w(enc); w.write(c); }
  Sink<wchar_t, 2> dec; if (m) convertBy(0, Utf8ToWideConvert(), enc.buf, enc.n, dec); else { Filter<Utf8ToWideFilter>::Read<ConstStrA::Iterator> rd(ConstStrA(enc.buf, enc.n).getFwIter()); while (rd.hasItems()) dec.write(rd.getNext()); }
  CHECK(dec.n == 1 && dec.buf[0] == c, "utf8: decode(encode(x)) != x for a 31-bit code"); lsx_reach("done");
}
// arbitrary bytes: either decoded as the structure says or rejected with InvalidUTF8Character
extern "C" void h_utf8junk() {
  unsigned n = lsx_concretize(lsx_range(0, NB, "n")), m = lsx_concretize(lsx_range(0, 4, "mode")); char in[NB + 1]; lsx_bytes(in, n, "in");
  bool skip = lsx_concretize(lsx_range(0, 1, "skipInvalid"));
  // reference decoder
  wchar_t ref[NB + 1]; unsigned r = 0; bool bad = false, part = false;
  for (unsigned i = 0; i < n && !bad;) {
    unsigned char a = in[i++]; unsigned more; uint32_t v;
    if (a < 0x80) { v = a; more = 0; } else if (a < 0xC0 || a == 0xFF) { bad = true; break; } else if (a < 0xE0) { v = a & 31; more = 1; } else if (a < 0xF0) { v = a & 15; more = 2; } else if (a < 0xF8) { v = a & 7; more = 3; } else if (a < 0xFC) { v = a & 3; more = 4; } else if (a < 0xFE) { v = a & 1; more = 5; } else { v = 0; more = 6; }
    while (more && i < n) { unsigned char b = in[i]; if ((b & 0xC0) != 0x80) { bad = true; break; } i++; v = v << 6 | (b & 63); more--; }
    if (bad) break; if (more) { part = true; break; } ref[r++] = (wchar_t)v;
  }
  Sink<wchar_t, NB + 1> dec; bool thrown = false;
  try {
    if (m < 4) convertBy(m, Utf8ToWideConvert(skip), in, n, dec);
    else { Utf8ToWideFilter f; f.enableSkipInvalidChars(skip); Filter<Utf8ToWideFilter>::Write<Sink<wchar_t, NB + 1>&> w(dec, f); for (unsigned i = 0; i < n; i++) w.write(in[i]); }
  } catch (const InvalidUTF8Character&) { thrown = true; }
  if (skip) { CHECK(!thrown, "utf8: exception although invalid characters are to be skipped"); lsx_reach("skipped"); if (bad) return; }
  else CHECK(thrown == bad, "utf8: malformed sequence not rejected, or a correct one rejected");
  if (!thrown) CHECK(dec.n == r, "utf8: number of decoded characters");
  for (unsigned i = 0; i < r && i < dec.n; i++) CHECK(dec.buf[i] == ref[i], "utf8: decoded character");
  if (bad) lsx_reach("rejected"); if (part) lsx_reach("partial"); lsx_reach("done");
}
