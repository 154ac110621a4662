// Iterators over converters and filters: any mix of the ways to consume / produce gives the same sequence
#include "conv.h"
#include "lightspeed/utils/base16.h"
#include "lightspeed/utils/base64.h"
#include "lightspeed/base/iter/iteratorFilter.tcc"
#include "lightspeed/base/exceptions/iterator.h"
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static unsigned ref64(const byte* in, unsigned n, char* out) { unsigned o = 0; for (unsigned i = 0; i < n; i += 3) { unsigned v = 0; for (unsigned k = 0; k < 3; k++) v = v << 8 | (i + k < n ? in[i + k] : 0); unsigned d = n - i >= 3 ? 4 : n - i + 1; for (unsigned k = 0; k < 4; k++) out[o++] = k < d ? B64[(v >> (18 - 6 * k)) & 63] : '='; } return o; }
static unsigned ref16(const byte* in, unsigned n, char* out) { for (unsigned i = 0; i < 2 * n; i++) { unsigned v = (in[i / 2] >> (i & 1 ? 0 : 4)) & 15; out[i] = v < 10 ? '0' + v : 'A' + v - 10; } return 2 * n; }
// consume `it` by a chosen mix of operations, comparing with the reference sequence
template<class It, class T> static void consume(It& it, const T* ref, unsigned len, unsigned maxOps) {
  unsigned pos = 0;
  for (unsigned k = 0; k < maxOps; k++) {
    unsigned op = pick(4, "op");
    if (op == 1 || op == 2) CHECK(it.hasItems() == (pos < len), "hasItems() differs from what remains"); // readers ask hasItems() before they take an item
    if (op == 0) { CHECK(it.hasItems() == (pos < len), "hasItems() differs from what remains"); }
    else if (op == 1) { if (pos < len) CHECK(it.peek() == ref[pos], "peek() returns a wrong item"); else { bool th = false; try { it.peek(); } catch (const IteratorNoMoreItems&) { th = true; } CHECK(th, "peek() at the end does not throw"); } }
    else if (op == 2) { if (pos < len) { CHECK(it.getNext() == ref[pos], "getNext() returns a wrong item"); pos++; } else { bool th = false; try { it.getNext(); } catch (const IteratorNoMoreItems&) { th = true; } CHECK(th, "getNext() at the end does not throw"); } }
    else { T buf[3] = {0, 0, 0}; unsigned want = 1 + pick(3, "block"); ArrayRef<T> arr(buf, want); natural got = it.blockRead(arr.ref(), false);
      CHECK(got <= want && pos + got <= len, "block read returns more than there is"); CHECK(got > 0 || pos == len, "block read returns nothing although items remain");
      for (unsigned i = 0; i < got; i++) CHECK(buf[i] == ref[pos + i], "block read returns wrong items"); pos += got; }
  }
  while (it.hasItems()) { CHECK(pos < len, "more items than expected"); CHECK(it.getNext() == ref[pos], "wrong item"); pos++; }
  CHECK(pos == len, "items missing at the end");
  lsx_reach("done");
}
#ifndef OPS
#define OPS 3
#endif
extern "C" void h_convread() {
  unsigned n = pick(NB + 1, "n"), what = pick(4, "conv"); byte in[NB + 1]; lsx_bytes(in, n, "in");
  char enc[4 * NB + 4]; typedef ConstStringT<byte> BStr; typedef ConstStrA CStr;
  BStr bs(in, n);
  if (what == 0) { unsigned l = ref16(in, n, enc); ConvertReadIter<ByteToBase16Convert, BStr::Iterator> it(bs.getFwIter()); consume(it, enc, l, OPS); }
  else if (what == 1) { unsigned l = ref64(in, n, enc); ConvertReadIter<ByteToBase64Convert, BStr::Iterator> it(bs.getFwIter()); consume(it, enc, l, OPS); }
  else if (what == 2) { unsigned l = ref64(in, n, enc); CStr cs(enc, l); ConvertReadIter<Base64ToByteConvert, CStr::Iterator> it(cs.getFwIter()); consume(it, in, n, OPS); }
  else { unsigned l = ref16(in, n, enc); CStr cs(enc, l); ConvertReadIter<Base16ToByteConvert, CStr::Iterator> it(cs.getFwIter()); consume(it, in, n, OPS); }
}
// chain: bytes -> base64 -> bytes (identity), bytes -> base16 chars -> bytes...
typedef ConverterChain<ByteToBase64Convert, Base64ToByteConvert> Ident64;
typedef ConverterChain<ByteToBase16Convert, Base16ToByteConvert> Ident16;
extern "C" void h_chainread() {
  unsigned n = pick(NB + 1, "n"), what = pick(2, "conv"); byte in[NB + 1]; lsx_bytes(in, n, "in");
  typedef ConstStringT<byte> BStr; BStr bs(in, n);
  if (what == 0) { ConvertReadIter<Ident64, BStr::Iterator> it(bs.getFwIter()); consume(it, in, n, OPS); }
  else { ConvertReadIter<Ident16, BStr::Iterator> it(bs.getFwIter()); consume(it, in, n, OPS); }
}
// reading iterator over another reading iterator
extern "C" void h_nested() {
  unsigned n = pick(NB + 1, "n"); byte in[NB + 1]; lsx_bytes(in, n, "in");
  typedef ConstStringT<byte> BStr; BStr bs(in, n);
  typedef ConvertReadIter<ByteToBase64Convert, BStr::Iterator> R1; R1 r1(bs.getFwIter());
  ConvertReadIter<Base64ToByteConvert, R1&> r2(r1); consume(r2, in, n, OPS);
}
// ---- writing: every split of the input into single writes and block writes
template<class W, class T> static void produce(W& w, const T* in, unsigned n) {
  unsigned i = 0;
  while (i < n) {
    if (pick(2, "block") == 0) { CHECK(w.hasItems(), "writer refuses items"); w.write(in[i++]); }
    else { unsigned k = 1 + pick(n - i, "len"); natural wr = w.blockWrite(ConstStringT<T>(in + i, k), true); CHECK(wr <= k, "block write reports more items than it was given");
      for (unsigned j = i + wr; j < i + k; j++) CHECK(in[j] == (T)'=', "block write left items out"); // a decoder may stop at the padding
      i += k; }
  }
}
extern "C" void h_convwrite() {
  unsigned n = pick(NB + 1, "n"), what = pick(6, "conv"); bool drop = pick(2, "destroy"); // a converting writer which goes away flushes by itself
  byte in[NB + 1]; lsx_bytes(in, n, "in"); char enc[4 * NB + 4]; unsigned l;
  Sink<char, 2 * NB + 4> s; Sink<byte, NB + 1> b;
  if (what == 0) { l = ref16(in, n, enc); ConvertWriteIter<ByteToBase16Convert, Sink<char, 2 * NB + 4>&> w(s); produce(w, in, n); if (!drop) w.flush(); }
  else if (what == 1) { l = ref64(in, n, enc); ConvertWriteIter<ByteToBase64Convert, Sink<char, 2 * NB + 4>&> w(s); produce(w, in, n); if (!drop) w.flush(); }
  else if (what == 2) { l = ref64(in, n, enc); ConvertWriteIter<Base64ToByteConvert, Sink<byte, NB + 1>&> w(b); produce(w, enc, l); if (!drop) w.flush(); }
  else if (what == 3) { ConvertWriteIter<Ident64, Sink<byte, NB + 1>&> w(b); produce(w, in, n); if (!drop) w.flush(); }
  else if (what == 4) { ConvertWriteIter<Ident16, Sink<byte, NB + 1>&> w(b); produce(w, in, n); if (!drop) w.flush(); }
  else { typedef ConvertWriteIter<Base64ToByteConvert, Sink<byte, NB + 1>&> W1; W1 w1(b); ConvertWriteIter<ByteToBase64Convert, W1&> w(w1); produce(w, in, n); if (!drop) w.flush(); }
  if (what < 2) { CHECK(s.n == l, "written length"); for (unsigned i = 0; i < l; i++) CHECK(s.buf[i] == enc[i], "written characters"); }
  else { CHECK(b.n == n, "written length"); for (unsigned i = 0; i < n; i++) CHECK(b.buf[i] == in[i], "written bytes"); }
  lsx_reach("done");
}
// a target which gets full: a block write reports what it has consumed, the rest can be written later
template<class T> class Room : public WriteIteratorBase<T, Room<T> > { public: T buf[2 * NB + 4]; unsigned n, cap; Room(unsigned c) : n(0), cap(c) {} bool hasItems() const { return n < cap; } void write(const T& x) { CHECK(n < cap, "write past the end of the target"); buf[n++] = x; } };
template<class W, class T, class O> static void resume(W& w, Room<O>& r, const T* in, unsigned n, unsigned per, unsigned unit) {
  unsigned i = 0;
  while (i < n) {
    natural wr = w.blockWrite(ConstStringT<T>(in + i, n - i), false); CHECK(wr > 0 && wr <= n - i, "block write reports a wrong number of items"); i += wr;
    CHECK(i / per * unit == r.n, "what was written does not match the reported number of items"); 
    if (i < n) { CHECK(r.n == r.cap, "block write stops although there is room"); r.cap += unit * (1 + pick(2, "more")); }
  }
}
extern "C" void h_convfull() {
  unsigned n = pick(NB + 1, "n"); byte in[NB + 1]; lsx_bytes(in, n, "in"); char enc[4 * NB + 4]; unsigned l = ref16(in, n, enc);
  if (pick(2, "conv") == 0) { Room<char> r(2 * (1 + pick(NB, "room"))); { ConvertWriteIter<ByteToBase16Convert, Room<char>&> w(r); resume(w, r, in, n, 1, 2); w.flush(); } CHECK(r.n == l, "written length"); for (unsigned i = 0; i < l; i++) CHECK(r.buf[i] == enc[i], "written characters"); }
  else { Room<byte> r(1 + pick(NB, "room")); { ConvertWriteIter<Base16ToByteConvert, Room<byte>&> w(r); resume(w, r, enc, l, 2, 1); w.flush(); } CHECK(r.n == n, "written length"); for (unsigned i = 0; i < n; i++) CHECK(r.buf[i] == in[i], "written bytes"); }
  lsx_reach("done");
}
// ---- filters
extern "C" void h_fltread() {
  unsigned n = pick(NB + 1, "n"), what = pick(3, "flt"); byte in[NB + 1]; lsx_bytes(in, n, "in"); char enc[4 * NB + 4];
  typedef ConstStringT<byte> BStr; typedef ConstStrA CStr; BStr bs(in, n); ConstStrA digits("0123456789ABCDEF");
  if (what == 0) { unsigned l = ref16(in, n, enc); FilterRead<BStr::Iterator, HexEncoder<byte, char> > it(bs.getFwIter(), HexEncoder<byte, char>(digits)); consume(it, enc, l, OPS); }
  else if (what == 1) { unsigned l = ref16(in, n, enc); CStr cs(enc, l); FilterRead<CStr::Iterator, HexDecoder<char, byte> > it(cs.getFwIter(), HexDecoder<char, byte>(digits)); consume(it, in, n, OPS); }
  else { FilterRead<BStr::Iterator, TypeConversionFilter<byte, short> > it(bs.getFwIter()); short ref[NB + 1]; for (unsigned i = 0; i < n; i++) ref[i] = in[i]; consume(it, ref, n, OPS); }
}
extern "C" void h_fltwrite() {
  unsigned n = pick(NB + 1, "n"), what = pick(3, "flt"); byte in[NB + 1]; lsx_bytes(in, n, "in"); char enc[4 * NB + 4]; unsigned l = ref16(in, n, enc); ConstStrA digits("0123456789ABCDEF");
  Sink<char, 2 * NB + 4> s; Sink<byte, NB + 1> b; Sink<short, NB + 1> sh;
  if (what == 0) { FilterWrite<Sink<char, 2 * NB + 4>&, HexEncoder<byte, char> > w(s, HexEncoder<byte, char>(digits)); produce(w, in, n); w.flush(); CHECK(s.n == l, "written length"); for (unsigned i = 0; i < l; i++) CHECK(s.buf[i] == enc[i], "written characters"); }
  else if (what == 1) { FilterWrite<Sink<byte, NB + 1>&, HexDecoder<char, byte> > w(b, HexDecoder<char, byte>(digits)); produce(w, enc, l); w.flush(); CHECK(b.n == n, "written length"); for (unsigned i = 0; i < n; i++) CHECK(b.buf[i] == in[i], "written bytes"); }
  else { FilterWrite<Sink<short, NB + 1>&, TypeConversionFilter<byte, short> > w(sh); produce(w, in, n); w.flush(); CHECK(sh.n == n, "written length"); for (unsigned i = 0; i < n; i++) CHECK(sh.buf[i] == in[i], "written items"); }
  lsx_reach("done");
}
// copying from one iterator to another: as many as the limit, the source and the target allow, in order, nothing is read in vain
class Tgt : public WriteIteratorBase<byte, Tgt> { public: byte buf[NB + 2]; unsigned n, cap; byte stop; Tgt(unsigned c) : n(0), cap(c), stop(0) {} bool hasItems() const { return n < cap; } bool canAccept(const byte& x) const { return n < cap && x != stop; } void write(const byte& x) { CHECK(n < cap, "write past the end of the target"); buf[n++] = x; } };
extern "C" void h_copy() {
  unsigned n = pick(NB + 1, "n"), cap = pick(NB + 2, "room"), lim = pick(NB + 3, "limit"); natural limit = lim == NB + 2 ? naturalNull : lim; byte in[NB + 1]; lsx_bytes(in, n, "in"); ConstStringT<byte> bs(in, n); ConstStringT<byte>::Iterator it = bs.getFwIter(); Tgt t(cap); unsigned most = n < limit ? n : limit, exp = most < cap ? most : cap; natural r = 0;
  switch (pick(4, "how")) {
    case 0: r = limit == naturalNull ? t.copy(it) : t.copy(it, limit); break;
    case 1: { const ConstStringT<byte>::Iterator cit(it); r = t.copy(cit, limit); CHECK(it.getRemain() == n, "iterator moved"); for (unsigned i = 0; i < exp; i++) it.getNext(); break; }
    case 2: { t.stop = lsx_u8("stop"); r = t.copyAccepted(it, limit); unsigned k = 0; while (k < exp && in[k] != t.stop) k++; exp = k; break; }
    default: { byte tmp[3]; ArrayRef<byte> buf(tmp, 1 + pick(3, "buffer")); bool th = false; try { r = t.blockCopy(it, buf, limit); } catch (const WriteIteratorNoSpace&) { th = true; } CHECK(th == (most > cap), "no place in the target is reported"); if (th) { CHECK(t.n == cap, "copied until the target is full"); for (unsigned i = 0; i < cap; i++) CHECK(t.buf[i] == in[i], "copied items"); lsx_reach("nospace"); return; } break; } }
  CHECK(r == exp && t.n == exp, "number of copied items"); for (unsigned i = 0; i < exp; i++) CHECK(t.buf[i] == in[i], "copied items"); CHECK(it.getRemain() == n - exp, "what was not copied remains in the source"); if (it.hasItems()) CHECK(it.peek() == in[exp], "next item");
  lsx_reach("done");
}
