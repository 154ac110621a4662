#include "lsx.h"
#include "lightspeed/base/containers/string.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/utils/json/json.h"
#include "lightspeed/utils/json/jsonexception.h"
#include "lightspeed/utils/json/jsonserializer.tcc"
#include "lightspeed/utils/json/jsonparser.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
using namespace LightSpeed;
#ifndef NB
#define NB 3
#endif
#ifndef NN
#define NN 4
#endif
static void warm() { JSON::PFactory f = JSON::create(); f->newValue(null); f->newValue(true); f->newValue(false); f->newValue((natural)0); f->newValue(ConstStrA()); }
static unsigned utf(uint32_t c, unsigned char* o) {
  if (c < 0x80) { o[0] = c; return 1; }
  if (c < 0x800) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
  if (c < 0x10000) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
  o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4;
}
static void checkText(const JSON::Value& v, const unsigned char* t, unsigned n, const char* l) {
  CHECK(v->isString(), l); ConstStrA s = v->getStringUtf8(); CHECK(s.length() == n, l); for (unsigned i = 0; i < n; i++) CHECK((unsigned char)s[i] == t[i], l);
}
// any byte string survives toString/fromString
extern "C" void h_jstr() {
  warm(); unsigned n = lsx_concretize(lsx_range(0, NB, "n")); char in[NB + 1]; lsx_bytes(in, n, "in"); bool key = lsx_concretize(lsx_range(0, 1, "asKey"));
  int live = lsx_live_heap();
  { JSON::PFactory f = JSON::create(); JSON::Value v;
    if (key) { v = f->object(); v->add(ConstStrA(in, n), f->newValue(true)); } else v = f->newValue(ConstStrA(in, n));
    StringA text = JSON::toString(v, false);
    for (natural i = 0; i < text.length(); i++) CHECK((unsigned char)text[i] >= 32, "json: raw control character in the text");
    JSON::Value r = f->fromString(text);
    if (key) { CHECK(r->isObject() && r->length() == 1, "json: key lost"); JSON::Iterator it = r->getFwIter(); const JSON::KeyValue& kv = it.getNext(); ConstStrA k = kv.getStringKey(); CHECK(k.length() == n, "json: key length"); for (unsigned i = 0; i < n; i++) CHECK(k[i] == in[i], "json: key text"); }
    else checkText(r, (unsigned char*)in, n, "json: string does not survive serialization and parsing");
    CHECK(*r == *v, "json: parsed value is not equal to the original"); }
  CHECK(lsx_live_heap() == live, "json: memory leak"); lsx_reach("done");
}
// text of code points, escaped to pure ASCII (from UTF-8 and from wide strings)
extern "C" void h_jesc() {
  warm(); unsigned n = lsx_concretize(lsx_range(1, NU, "n")); wchar_t w[NU + 1]; unsigned char u[4 * NU + 1]; unsigned r = 0;
  for (unsigned i = 0; i < n; i++) { static const uint32_t rep[] = {'d', 0xE9, 0xFFFD, 0x10000, 0x1F600}; uint32_t c; if (i) c = rep[lsx_concretize(lsx_range(0, 4, "next character"))]; else { c = lsx_range(0x20, 0x10FFFF, "codepoint"); lsx_assume((c < 0xD800) | (c > 0xDFFF)); } w[i] = (wchar_t)c; r += utf(c, u + r); }
  unsigned mode = lsx_concretize(lsx_range(0, 2, "mode"));
  JSON::PFactory f = JSON::create(); JSON::Value v = mode == 0 ? f->newValue(ConstStrA((char*)u, r)) : f->newValue(ConstStrW(w, n));
  checkText(v, u, r, "json: UTF-8 form of a string value");
  ConstStrW x = v->getString(); CHECK(x.length() == n, "json: wide form length"); for (unsigned i = 0; i < n; i++) CHECK(x[i] == w[i], "json: wide form");
  StringA text = JSON::toString(v, mode != 1);
  if (mode != 1) for (natural i = 0; i < text.length(); i++) CHECK((unsigned char)text[i] < 128, "json: escaped text must be ASCII");
  checkText(f->fromString(text), u, r, "json: escaped text does not survive parsing"); lsx_reach("done");
}
static JSON::Value mkInt(JSON::PFactory& f, integer& x) {
  static const integer lim[] = {0, 1, 9, 10, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 999999999999999999LL, 1000000000000000000LL, 9223372036854775806LL, 9223372036854775807LL};
  unsigned k = lsx_concretize(lsx_range(0, 13, "number kind"));
  if (k < 12) x = lim[k]; else if (k == 12) x = lsx_range(0, 999, "number"); else x = 123450000000000LL + lsx_range(0, 99, "low digits");
  if (lsx_concretize(lsx_range(0, 1, "negative"))) { x = -x; if (k == 11 && lsx_concretize(lsx_range(0, 1, "min"))) x = -x - 1, x = (integer)(1ULL << 63); }
  return f->newValue(x);
}
extern "C" void h_jnum() {
  warm(); JSON::PFactory f = JSON::create(); integer x; JSON::Value v = mkInt(f, x);
  bool arr = lsx_concretize(lsx_range(0, 1, "in array"));
  if (arr) { JSON::Value a = f->array(); a->add(v); v = a; }
  StringA text = JSON::toString(v, false); JSON::Value r = f->fromString(text); if (arr) { CHECK(r->isArray() && r->length() == 1, "json: array"); r = r[0]; }
  CHECK(r->isIntNum(), "json: integer is not an integer after parsing"); CHECK(r->getInt() == x && r->getLongInt() == x, "json: integer changed by serialization and parsing"); lsx_reach("done");
}
// decimal literals of any length up to 19 digits (leading digits concrete, last ones arbitrary)
extern "C" void h_jlit() {
  warm(); JSON::PFactory f = JSON::create(); char t[32]; unsigned p = 0; bool neg = lsx_concretize(lsx_range(0, 1, "neg")); if (neg) t[p++] = '-';
  unsigned len = lsx_concretize(lsx_range(1, 21, "digits")); natural val = 0;
  static const char lead[] = "9223372036854775807";
  bool big = len > 19;
  for (unsigned i = 0; i < len; i++) { unsigned d; if (i + 2 >= len) d = lsx_range(0, 9, "digit"); else d = i < 19 ? lead[i] - '0' : 0; t[p++] = '0' + d; if (!big) val = val * 10 + d; }
  if (len > 1) lsx_assume(t[neg] != '0');
  natural lim = neg ? (natural)1 << 63 : ((natural)1 << 63) - 1; big = big || val > lim;
  JSON::Value a = f->fromString(ConstStrA(t, p));
  CHECK(a->isNumber(), "json: number is not a number");
  if (!big) { CHECK(a->isIntNum(), "json: integer literal is not an integer"); CHECK(a->getInt() == (integer)(neg ? 0 - val : val), "json: value of an integer literal"); lsx_reach("integer"); }
  else { CHECK(a->isFloatNum(), "json: a literal which does not fit an integer must become a floating point number"); lsx_reach("big"); }
}
// ---- trees
struct Ref { int kind; integer num; char ch; unsigned cnt; int kid[2]; char key[2]; };
static Ref T[16]; static unsigned tn;
static JSON::Value gen(JSON::PFactory& f, unsigned depth, int& me) {
  me = tn++; Ref& r = T[me]; r.cnt = 0;
  unsigned top = depth && tn + 1 < NN ? 6 : 4; r.kind = lsx_concretize(lsx_range(0, top, "kind"));
  switch (r.kind) {
    case 0: return f->newValue(null);
    case 1: r.num = lsx_concretize(lsx_range(0, 1, "bool")); return f->newValue(r.num != 0);
    case 2: r.num = lsx_range(0, 99, "int"); return f->newValue(r.num);
    case 3: r.ch = lsx_u8("char"); lsx_assume((r.ch >= 'a') & (r.ch <= 'z')); return f->newValue(ConstStrA(&r.ch, 1));
    case 4: return f->newValue(ConstStrA());
    case 5: { JSON::Value a = f->array(); r.cnt = lsx_concretize(lsx_range(0, NN - tn >= 2 ? 2 : 1, "items")); for (unsigned i = 0; i < r.cnt; i++) { int k; JSON::Value c = gen(f, depth - 1, k); T[me].kid[i] = k; a->add(c); } return a; }
    default: { JSON::Value a = f->object(); r.cnt = lsx_concretize(lsx_range(0, NN - tn >= 2 ? 2 : 1, "fields"));
      for (unsigned i = 0; i < r.cnt; i++) { char k = 'a' + lsx_range(0, 25, "key"); if (i) lsx_assume(k != T[me].key[0]); T[me].key[i] = k; int q; JSON::Value c = gen(f, depth - 1, q); T[me].kid[i] = q; a->add(ConstStrA(&k, 1), c); } return a; }
  }
}
static void cmp(const JSON::Value& v, int me) {
  Ref& r = T[me];
  switch (r.kind) {
    case 0: CHECK(v->isNull(), "json tree: null"); break;
    case 1: CHECK(v->isBool() && v->getBool() == (r.num != 0), "json tree: bool"); break;
    case 2: CHECK(v->isIntNum() && v->getInt() == r.num, "json tree: number"); break;
    case 3: { ConstStrA s = v->getStringUtf8(); CHECK(v->isString() && s.length() == 1 && s[0] == r.ch, "json tree: string"); break; }
    case 4: CHECK(v->isString() && v->getStringUtf8().empty(), "json tree: empty string"); break;
    case 5: CHECK(v->isArray() && v->length() == r.cnt && v->empty() == (r.cnt == 0), "json tree: array size"); for (unsigned i = 0; i < r.cnt; i++) cmp(v[(natural)i], r.kid[i]); break;
    default: CHECK(v->isObject() && v->getEntryCount() == r.cnt && v->empty() == (r.cnt == 0), "json tree: object size");
      for (unsigned i = 0; i < r.cnt; i++) { JSON::Value c = v[ConstStrA(r.key + i, 1)]; CHECK(c != nil, "json tree: field is missing"); cmp(c, r.kid[i]); }
      natural k = 0; char last = 0; for (JSON::Iterator it = v->getFwIter(); it.hasItems(); k++) { const JSON::KeyValue& kv = it.getNext(); ConstStrA n = kv.getStringKey(); CHECK(n.length() == 1 && kv.getIndex() == k && n[0] > last, "json tree: enumeration order"); last = n[0]; }
      CHECK(k == r.cnt, "json tree: enumeration count");
  }
}
extern "C" void h_jtree() {
  warm(); int live = lsx_live_heap();
  { JSON::PFactory f = JSON::create(); tn = 0; int root; JSON::Value v = gen(f, 2, root); cmp(v, root);
    StringA text = JSON::toString(v, false); JSON::Value r = f->fromString(text); cmp(r, root);
    CHECK(*r == *v && *v == *r && !(*r != *v), "json: the parsed tree is not equal to the original");
    StringA text2 = JSON::toString(r, true); CHECK(text2 == text, "json: serialization is not stable");
    JSON::Value c = v->clone(f); cmp(c, root); CHECK(*c == *v, "json: a clone is not equal to its source");
    JSON::Value d = v->copy(f); cmp(d, root); CHECK(*d == *v, "json: a copy is not equal to its source");
    lsx_reach("done"); }
  CHECK(lsx_live_heap() == live, "json: memory leak");
}
// inequality: changing one leaf makes trees different
extern "C" void h_jneq() {
  warm(); JSON::PFactory f = JSON::create(); integer a = lsx_range(0, 99, "a"), b = lsx_range(0, 99, "b"); bool arr = lsx_concretize(lsx_range(0, 1, "array"));
  JSON::Value x = arr ? f->array() : f->object(), y = arr ? f->array() : f->object();
  x->add("k", f->newValue(a)); y->add("k", f->newValue(b)); x->add("z", f->newValue("t")); y->add("z", f->newValue("t"));
  CHECK((*x == *y) == (a == b), "json: equality of containers must be equality of their content"); lsx_reach("done");
}
// arbitrary text: a value or an exception, nothing else; a parsed value is reproducible
extern "C" void h_jjunk() {
  warm(); unsigned n = lsx_concretize(lsx_range(0, NB, "n")); char in[NB + 1]; lsx_bytes(in, n, "in");
  try { JSON::create()->fromString(ConstStrA()); } catch (const Exception&) {}
  int live = lsx_live_heap();
  { JSON::PFactory f = JSON::create(); JSON::Value v; bool ok = false;
    try { v = f->fromString(ConstStrA(in, n)); ok = true; } catch (const Exception&) { lsx_reach("rejected"); }
    if (ok) { CHECK(v != nil, "json: parser returned nothing"); lsx_reach("accepted"); if (!v->isFloatNum()) { StringA t = JSON::toString(v, false); JSON::Value r = f->fromString(t); CHECK(*r == *v, "json: reparsed value differs"); } } }
  CHECK(lsx_live_heap() == live, "json: memory leak after parsing arbitrary text"); lsx_reach("done");
}
// whitespace anywhere between tokens is ignored; every proper prefix of a document is rejected
static const char* const docs[] = {"{\"a\":[1,true],\"b\":{}}", "[{\"x\":null},[],-12,\"q\\\"\"]", "{\"k\":{\"l\":[false,0]}}"};
static const char* const toks[] = {"{|\"a\"|:|[|1|,|true|]|,|\"b\"|:|{|}|}", "[|{|\"x\"|:|null|}|,|[|]|,|-12|,|\"q\\\"\"|]", "{|\"k\"|:|{|\"l\"|:|[|false|,|0|]|}|}"};
extern "C" void h_jws() {
  warm(); unsigned d = lsx_concretize(lsx_range(0, 2, "doc")); char t[80]; unsigned p = 0; unsigned at = lsx_concretize(lsx_range(0, 16, "at")), cnt = 0; char ws = lsx_u8("ws"), ws2 = lsx_u8("ws2");
  lsx_assume((ws == ' ') | (ws == '\t') | (ws == '\n') | (ws == '\r')); lsx_assume((ws2 == ' ') | (ws2 == '\t') | (ws2 == '\n') | (ws2 == '\r'));
  if (at == 0) { t[p++] = ws; t[p++] = ws2; }
  for (const char* c = toks[d]; *c; c++) if (*c == '|') { if (++cnt == at) { t[p++] = ws; t[p++] = ws2; } } else t[p++] = *c;
  JSON::PFactory f = JSON::create(); JSON::Value v = f->fromString(ConstStrA(t, p)); JSON::Value w = f->fromString(ConstStrA(docs[d]));
  CHECK(*v == *w, "json: whitespace changes the value"); CHECK(JSON::toString(v, false) == ConstStrA(docs[d]), "json: canonical text"); lsx_reach("done");
}
extern "C" void h_jtrunc() {
  warm(); unsigned d = lsx_concretize(lsx_range(0, 2, "doc")); unsigned len = ConstStrA(docs[d]).length(); unsigned k = lsx_concretize(lsx_range(0, len, "cut"));
  { JSON::PFactory f = JSON::create(); try { f->fromString(ConstStrA()); } catch (const Exception&) {} }
  char t[64]; for (unsigned i = 0; i < k; i++) t[i] = docs[d][i];
  bool sub = lsx_concretize(lsx_range(0, 1, "damage")); if (sub) { lsx_assume(k < len); k++; t[k - 1] = lsx_u8("byte"); }
  int live = lsx_live_heap(); bool thrown = false;
  { JSON::PFactory f = JSON::create(); JSON::Value v; try { v = f->fromString(ConstStrA(t, k)); } catch (const Exception&) { thrown = true; lsx_reach("rejected"); }
    if (!sub && k < len) CHECK(thrown, "json: incomplete document accepted"); else if (!sub) CHECK(!thrown, "json: complete document rejected"); }
  CHECK(lsx_live_heap() == live, "json: memory leak after a syntax error"); lsx_reach("done");
}
// container operations against a model: object with single-letter keys
extern "C" void h_jobj() {
  warm(); int live = lsx_live_heap();
  { JSON::PFactory f = JSON::create(); JSON::Value v = f->object(); integer val[3] = {-1, -1, -1};
    for (unsigned s = 0; s < NS; s++) {
      unsigned op = lsx_concretize(lsx_range(0, 4, "op")); unsigned k = lsx_concretize(lsx_range(0, 2, "key")); char kc = 'a' + k; integer x = lsx_range(1, 9, "value"); ConstStrA key(&kc, 1);
      switch (op) {
        case 0: v.add(key, f->newValue(x)); if (val[k] < 0) val[k] = x; break;        // does not replace
        case 1: v.set(key, f->newValue(x)); val[k] = x; break;
        case 2: v.unset(key); val[k] = -1; break;
        case 3: { JSON::Value old; v->replace(key, f->newValue(x), &old); if (val[k] < 0) CHECK(old == nil, "json object: replace() reports a previous value which did not exist"); else CHECK(old != nil && old->getInt() == val[k], "json object: replace() reports a wrong previous value"); val[k] = x; break; }
        default: v.set(key, JSON::Value()); val[k] = -1; break;                        // nil removes
      }
      natural c = 0; for (unsigned i = 0; i < 3; i++) { char n = 'a' + i; JSON::Value e = v[ConstStrA(&n, 1)]; if (val[i] < 0) CHECK(e == nil, "json object: removed field is still there"); else { c++; CHECK(e != nil && e->getInt() == val[i], "json object: wrong field value"); } }
      CHECK(v.length() == c && v.empty() == (c == 0), "json object: size");
    }
    unsigned i = 0; for (JSON::Iterator it = v->getFwIter(); it.hasItems();) { const JSON::KeyValue& kv = it.getNext(); while (i < 3 && val[i] < 0) i++; CHECK(i < 3 && kv.getStringKey().length() == 1 && kv.getStringKey()[0] == 'a' + (int)i && kv->getInt() == val[i], "json object: enumeration"); i++; }
    lsx_reach("done"); }
  CHECK(lsx_live_heap() == live, "json object: memory leak");
}
// arbitrary keys: two fields are the same field exactly when their names are the same text
#ifndef KL
#define KL 4
#endif
extern "C" void h_jkeys() {
  warm(); int live = lsx_live_heap();
  { unsigned n1 = lsx_concretize(lsx_range(0, KL, "n1")), n2 = lsx_concretize(lsx_range(0, KL, "n2")); char a[KL + 1], b[KL + 1]; lsx_bytes(a, n1, "a"); lsx_bytes(b, n2, "b");
    int same = n1 == n2; for (unsigned i = 0; i < n1 && i < n2; i++) same &= a[i] == b[i];
    JSON::PFactory f = JSON::create(); JSON::Value v = f->object(); ConstStrA ka(a, n1), kb(b, n2);
    v->add(ka, f->newValue((natural)1)); v->add(kb, f->newValue((natural)2)); natural want = 2 - same;
    CHECK(v->length() == want, "json object: number of fields"); JSON::Value x = v[ka], y = v[kb];
    CHECK(x != nil && x->getInt() == 1 && y != nil && y->getInt() == (integer)want, "json object: field found by its name");
    natural k = 0; for (JSON::Iterator it = v->getFwIter(); it.hasItems(); k++) { const JSON::KeyValue& kv = it.getNext(); natural l = kv.getStringKey().length(); CHECK(l == (kv->getInt() == 1 ? n1 : n2), "json object: enumerated name"); } CHECK(k == want, "json object: enumeration");
    v.unset(ka); CHECK(v->length() == want - 1, "json object: removed by name"); y = v[kb]; CHECK((y == nil) == (same != 0), "json object: the other field stays");
    lsx_reach("done"); }
  CHECK(lsx_live_heap() == live, "json object: memory leak");
}
extern "C" void h_jarr() {
  warm(); int live = lsx_live_heap();
  { JSON::PFactory f = JSON::create(); JSON::Value v = f->array(); integer m[NS + 1]; unsigned n = 0;
    for (unsigned s = 0; s < NS; s++) {
      unsigned op = lsx_concretize(lsx_range(0, 4, "op")); integer x = lsx_range(1, 9, "value");
      if (op == 0 || n == 0) { v.add(f->newValue(x)); m[n++] = x; }
      else { unsigned i = lsx_concretize(lsx_range(0, n - 1, "index"));
        if (op == 1) { v.set((natural)i, f->newValue(x)); m[i] = x; }
        else if (op == 2) { v.erase(i); for (unsigned j = i + 1; j < n; j++) m[j - 1] = m[j]; n--; }
        else if (op == 3) { JSON::Value old; v->replace((natural)i, f->newValue(x), &old); CHECK(old != nil && old->getInt() == m[i], "json array: replace() reports a wrong previous value"); m[i] = x; }
        else { v.set((natural)i, JSON::Value()); for (unsigned j = i + 1; j < n; j++) m[j - 1] = m[j]; n--; } }
      CHECK(v.length() == n, "json array: size"); for (unsigned i = 0; i < n; i++) CHECK(v[(natural)i]->getInt() == m[i], "json array: content");
      bool thrown = false; try { v[(natural)n]; } catch (const Exception&) { thrown = true; } CHECK(thrown, "json array: access past the end must throw");
    }
    lsx_reach("done"); }
  CHECK(lsx_live_heap() == live, "json array: memory leak");
}
// paths: comparison, lookup, copies own their storage
extern "C" void h_jpath() {
  int live = lsx_live_heap();
  unsigned n = lsx_concretize(lsx_range(1, 3, "length")); char k1[3] = {'a', 'b', 'c'};
  { bool key[3]; natural ix[3]; for (unsigned i = 0; i < n; i++) { key[i] = lsx_concretize(lsx_range(0, 1, "isKey")); ix[i] = lsx_range(0, 3, "index"); k1[i] = lsx_u8("key"); }
    JSON::Path* c;
    { char tmp[3] = {k1[0], k1[1], k1[2]};
      JSON::Path p0 = key[0] ? JSON::Path(JSON::Path::root, ConstStrA(tmp, 1)) : JSON::Path(JSON::Path::root, ix[0]);
      JSON::Path p1 = n < 2 ? JSON::Path(p0, (natural)0) : key[1] ? JSON::Path(p0, ConstStrA(tmp + 1, 1)) : JSON::Path(p0, ix[1]);
      JSON::Path p2 = n < 3 ? JSON::Path(p1, (natural)0) : key[2] ? JSON::Path(p1, ConstStrA(tmp + 2, 1)) : JSON::Path(p1, ix[2]);
      JSON::Path& p = n == 1 ? p0 : n == 2 ? p1 : p2; c = p.copy(); CHECK(c->compare(p) == cmpResultEqual && p.compare(*c) == cmpResultEqual, "json path: a copy is not equal"); tmp[0] = tmp[1] = tmp[2] = 0; }
    CHECK(c->length() == n, "json path: length of a copy"); const JSON::Path* q = c;
    for (unsigned i = n; i-- > 0;) { CHECK(q->isKey() == key[i], "json path: kind"); if (key[i]) CHECK(q->getKey().length() == 1 && q->getKey()[0] == k1[i], "json path: key of a copy"); else CHECK(q->getIndex() == ix[i], "json path: index of a copy"); q = &q->getParent(); }
    CHECK(q->isRoot(), "json path: root"); delete c; }
  CHECK(lsx_live_heap() == live, "json path: memory leak"); lsx_reach("done");
}
