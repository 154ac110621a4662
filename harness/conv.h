#pragma once
#ifndef NB
#define NB 4
#endif
#ifndef NC
#define NC 5
#endif
#ifndef NB2
#define NB2 4
#endif
#include "lsx.h"
#include "lightspeed/base/containers/constStr.h"
#include "lightspeed/base/iter/iterConv.h"
#include "lightspeed/base/containers/flatArray.h"
using namespace LightSpeed;
// bounded sink: writing more than CAP items is reported (no converter may produce more than the harness expects)
template<class T, unsigned CAP> class Sink : public WriteIteratorBase<T, Sink<T, CAP> > {
public:
  T buf[CAP + 1]; unsigned n;
  Sink() : n(0) {}
  bool hasItems() const { return true; }
  void write(const T& x) { CHECK(n < CAP, "converter produces more output than its format allows"); buf[n++] = x; }
  template<class Tr> natural blockWrite(const FlatArray<T, Tr>& b, bool) { for (natural i = 0; i < b.length(); i++) write(b[i]); return b.length(); }
  template<class Tr> natural blockWrite(const FlatArray<const T, Tr>& b, bool) { for (natural i = 0; i < b.length(); i++) write(b[i]); return b.length(); }
};
// convert n items of `in` with conv, in one of the ways the library offers
template<class Conv, class From, class S> void convertBy(unsigned mode, const Conv& init, const From* in, unsigned n, S& out) {
  typedef ConstStringT<From> Str;
  Str src(in, n);
  if (mode == 0) {                       // item by item through a write iterator
    ConvertWriteIter<Conv, S&> w(init, out);
    for (unsigned i = 0; i < n; i++) w.write(in[i]);
  } else if (mode == 1) {                // pulled through a read iterator
    ConvertReadIter<Conv, typename Str::Iterator> r(init, src.getFwIter());
    while (r.hasItems()) out.write(r.getNext());
  } else if (mode == 2) {                // block write, in two pieces
    Conv c(init); unsigned k = n / 2;
    c.blockWrite(Str(in, k), out, true); c.blockWrite(Str(in + k, n - k), out, true); c.flushToIter(out);
  } else {                               // raw protocol: drain whenever something can be read
    Conv c(init); unsigned i = 0;
    while (i < n) { if (c.needItems) c.write(in[i++]); while (c.hasItems) { typename Conv::ToType p = c.peek(); typename Conv::ToType g = c.getNext(); CHECK(p == g, "peek() differs from getNext()"); out.write(g); } }
    c.flush(); while (c.hasItems) out.write(c.getNext());
  }
}
