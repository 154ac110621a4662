#include <exception>
#include "lsx.h"
#include "lightspeed/base/containers/constStr.h"
#include "lightspeed/base/containers/convertString.h"
#include "lightspeed/utils/lzw.h"
#include "lightspeed/base/containers/autoArray.tcc"
using namespace LightSpeed;
#ifndef NT
#define NT 4
#endif
#ifndef NT2
#define NT2 3
#endif
#ifndef ALPHA
#define ALPHA 2
#endif
static unsigned pick(unsigned n, const char* w) { return (unsigned)lsx_concretize(lsx_range(0, n - 1, w)); }
// one byte through compressor and decompressor; what comes out is compared with what went in
template<class C, class D> struct Pipe {
  C c; D d; byte want[3000]; unsigned wn, got, zn;
  Pipe(unsigned bits) : c(bits), wn(0), got(0), zn(0) {}
  void drain() {
    while (c.hasItems) {
      byte p = c.peek(); byte z = c.getNext(); CHECK(p == z, "peek() of the compressor differs from getNext()");
      CHECK(d.needItems, "decompressor has nothing to give and does not ask for input"); zn++;
      d.write(z);
      while (d.hasItems) { byte q = d.peek(); byte o = d.getNext(); CHECK(q == o, "peek() of the decompressor differs from getNext()"); CHECK(got < wn, "decompressor gives more than was compressed"); CHECK(o == want[got], "decompressed byte differs from the compressed one"); got++; }
    }
  }
  void put(byte b) { want[wn++] = b; CHECK(c.needItems, "compressor does not accept input"); c.write(b); drain(); }
  void flush() { c.flush(); drain(); CHECK(got == wn, "a compressed byte was not decompressed after flush()"); }
};
static const unsigned short lcg[4][3] = {{20, 42, 1195}, {20, 171, 1210}, {21, 35, 1181}, {5, 7, 2500}};   // alphabet, seed, byte at which LZWp rebuilds its dictionary to 253, 254, 255 items; the last: several rebuilds (9 bits)
template<class C, class D> static void run(unsigned bits, unsigned kind, int start) {
  Pipe<C, D> p(bits);
  if (kind < 4) { unsigned s = lcg[kind][1]; int n = lcg[kind][2] + start; for (int i = 0; i < n; i++) { s = s * 1103515245u + 12345u; p.put((byte)((s >> 16) % lcg[kind][0])); } }
  else { for (int i = 0; i < start; i++) p.put((byte)(i + (i >> 8))); }
  for (unsigned i = 0; i < NT; i++) p.put((byte)(kind < 4 ? lsx_range(0, ALPHA - 1, "tail") * 3 + 1 : lsx_range(0, ALPHA - 1, "tail") * 37 + 17));
  p.flush();
  CHECK(p.c.eolb && p.d.eolb, "end of data not signalled");
  unsigned m = pick(NT2 + 1, "second"); 
  for (unsigned i = 0; i < m; i++) p.put((byte)(lsx_range(0, ALPHA - 1, "next") * 37 + 17));
  p.flush();
  lsx_reach(kind == 4 ? "round trip" : "round trip after a rebuilt dictionary");
}
template<class C, class D> static void modes() {
  unsigned k = pick(3, "mode");
  if (k == 0) run<C, D>(9, 4, pick(3, "short prefix"));
  if (k == 1) run<C, D>(9, 4, 246 + pick(6, "prefix near the clear code"));         // the dictionary fills up in the tail
  if (k == 2) run<C, D>(10 + pick(2, "bits") * 5, 4, 250 + pick(6, "prefix near 9-bit codes"));           // code length grows in the tail
}
extern "C" void h_lzw() { modes<LZWCompress, LZWDecompress>(); }
extern "C" void h_lzwp() { modes<LZWpCompress, LZWpDecompress>(); }
extern "C" void h_lzwp_kept() { static const int at[4] = {-3, -1, 60, 330}; unsigned k = pick(4, "kept items"); run<LZWpCompress, LZWpDecompress>(k == 3 ? 9 : 10, k, at[k == 3 ? 0 : pick(4, "around the rebuild")]); }
// arbitrary input: rejected or decoded, never a read outside of the dictionary
extern "C" void h_lzw_any() {
  byte in[NT + 2]; lsx_bytes((char*)in, NT + 2, "stream");
  try {
    if (pick(2, "which")) { LZWpDecompress d; for (unsigned i = 0; i < NT + 2; i++) { d.write(in[i]); unsigned n = 0; while (d.hasItems) { d.getNext(); CHECK(++n <= NT + 2, "more bytes than codes"); } } }
    else { LZWDecompress d; for (unsigned i = 0; i < NT + 2; i++) { d.write(in[i]); unsigned n = 0; while (d.hasItems) { d.getNext(); CHECK(++n <= NT + 2, "more bytes than codes"); } } }
    lsx_reach("decoded");
  } catch (Exception&) { lsx_reach("rejected"); }
}
