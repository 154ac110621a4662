#include "conv.h"
#ifndef NR
#define NR 4
#endif
static bool pick2(const char* n) { return lsx_concretize(lsx_range(0, 1, n)) != 0; }
#include "lightspeed/utils/base16.h"
#include "lightspeed/utils/base32.h"
#include "lightspeed/utils/base64.h"
#include "lightspeed/utils/base85.h"
#include "lightspeed/base/exceptions/iterator.h"
// ---- base16
extern "C" void h_base16() {
  unsigned n = lsx_concretize(lsx_range(0, NB, "n")); unsigned m = lsx_concretize(lsx_range(0, 3, "encMode")), m2 = (m + n) & 3;
  byte in[NB + 1]; lsx_bytes(in, n, "in");
  bool lower = lsx_concretize(lsx_range(0, 1, "lower")); 
  Sink<char, 2 * NB + 1> enc;
  convertBy(m, lower ? ByteToBase16Convert(ByteToBase16Convert::hexLowerCase) : ByteToBase16Convert(), in, n, enc);
  CHECK(enc.n == 2 * n, "base16: encoded length is not 2 per byte");
  for (unsigned i = 0; i < 2 * n; i++) { unsigned v = (in[i / 2] >> (i & 1 ? 0 : 4)) & 15; char ref = v < 10 ? '0' + v : (lower ? 'a' : 'A') + v - 10; CHECK(enc.buf[i] == ref, "base16: wrong digit"); }
  unsigned dm = lsx_concretize(lsx_range(0, 1, "caseSensitive"));
  Sink<byte, NB + 1> dec;
  if (dm) convertBy(m2, Base16ToByteConvert(lower ? Base16ToByteConvert::hexLowerCase : Base16ToByteConvert::hexUpperCase, true), enc.buf, enc.n, dec);
  else { // case-insensitive decoding: any mix of upper and lower case digits
    for (unsigned i = 0; i < enc.n; i++) { bool flip = lsx_bool("flip"); char c = enc.buf[i]; enc.buf[i] = c ^ (char)(((int)flip & (int)(c >= 'A')) << 5); }
    unsigned tab = lsx_concretize(lsx_range(0, 2, "table"));
    convertBy(m2, tab == 0 ? Base16ToByteConvert() : Base16ToByteConvert(tab == 1 ? Base16ToByteConvert::hexLowerCase : Base16ToByteConvert::hexUpperCase, false), enc.buf, enc.n, dec);
  }
  CHECK(dec.n == n, "base16: decoded length");
  for (unsigned i = 0; i < n; i++) CHECK(dec.buf[i] == in[i], "base16: decode(encode(x)) != x");
  lsx_reach("done");
}
extern "C" void h_hexfilter() { // HexEncoder / HexDecoder filters
  unsigned n = lsx_concretize(lsx_range(0, NB, "n")); byte in[NB + 1]; lsx_bytes(in, n, "in");
  bool own = lsx_concretize(lsx_range(0, 1, "ownDigits")); ConstStrA digits("0123456789ABCDEF");
  HexEncoder<byte, char> e0; HexEncoder<byte, char> e1(digits); HexEncoder<byte, char>& e = own ? e1 : e0;
  HexDecoder<char, byte> d0; HexDecoder<char, byte> d1(digits); HexDecoder<char, byte>& d = own ? d1 : d0;
  unsigned o = 0;
  for (unsigned i = 0; i < n; i++) {
    CHECK(e.needItems(), "hex encoder refuses input"); e.input(in[i]);
    while (e.hasItems()) { CHECK(d.needItems(), "hex decoder refuses input"); char c = e.output(); unsigned v = (o & 1) ? in[i] & 15 : in[i] >> 4; CHECK(c == (v < 10 ? '0' + v : (own ? 'A' : 'a') + v - 10), "hex: wrong digit"); d.input(c); o++;
      if ((o & 1) == 0) { CHECK(d.hasItems(), "hex decoder has no output after a full byte"); byte b = d.output(); CHECK(b == in[i], "hex: decode(encode(x)) != x"); CHECK(!d.hasItems(), "hex decoder produces extra output"); } }
    CHECK(o == 2 * (i + 1), "hex: digits per byte");
  }
  e.flush(); CHECK(!e.hasItems(), "hex encoder: output after flush");
  d.flush(); CHECK(!d.hasItems(), "hex decoder: output after flush");
  lsx_reach("done");
}
// ---- base32 / base64 (RFC 4648)
template<unsigned BITS, unsigned IN, unsigned OUT, class Enc, class Dec> static void rfc4648(const char* alphabet, bool pad, const Enc& einit, const Dec& dinit, bool fold) {
  unsigned n = lsx_concretize(lsx_range(0, NB, "n")); unsigned m = lsx_concretize(lsx_range(0, 3, "encMode")), m2 = (m + n) & 3;
  byte in[NB + 1]; lsx_bytes(in, n, "in");
  const unsigned CAP = (NB + IN - 1) / IN * OUT;
  Sink<char, CAP + 1> enc; convertBy(m, einit, in, n, enc);
  unsigned data = (n * 8 + BITS - 1) / BITS, full = (n + IN - 1) / IN * OUT;
  CHECK(enc.n == (pad ? full : data), "encoded length differs from RFC 4648");
  for (unsigned i = 0; i < enc.n; i++) {
    if (i >= data) { CHECK(enc.buf[i] == '=', "padding"); continue; }
    unsigned bit = i * BITS, v = 0; for (unsigned b = 0; b < BITS; b++) { unsigned p = bit + b; v = v << 1 | (p / 8 < n ? (in[p / 8] >> (7 - p % 8)) & 1 : 0); }
    CHECK(enc.buf[i] == alphabet[v], "encoded character differs from RFC 4648");
  }
  if (fold) for (unsigned i = 0; i < enc.n; i++) { bool flip = lsx_bool("flip"); char c = enc.buf[i]; enc.buf[i] = c ^ (char)(((int)flip & (int)(c >= 'A')) << 5); }
  Sink<byte, NB + 1> dec; convertBy(m2, dinit, enc.buf, enc.n, dec);
  CHECK(dec.n == n, "decoded length");
  for (unsigned i = 0; i < n; i++) CHECK(dec.buf[i] == in[i], "decode(encode(x)) != x");
  lsx_reach("done");
}
static const char A32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char A64U[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
extern "C" void h_base32() {
  switch (lsx_concretize(lsx_range(0, 3, "variant"))) {
  case 0: rfc4648<5, 5, 8>(A32, true, ByteToBase32Convert(), Base32ToByteConvert(), false); break;
  case 1: rfc4648<5, 5, 8>(A32, true, ByteToBase32Convert(), Base32ToByteConvert(), true); break;
  case 2: rfc4648<5, 5, 8>(A32, false, ByteToBase32Convert(ByteToBase32Convert::standardTable, 0), Base32ToByteConvert(), false); break;
  case 3: rfc4648<5, 5, 8>(A32, true, ByteToBase32Convert(ByteToBase32Convert::standardTable, '='), Base32ToByteConvert(Base32ToByteConvert::standardTable, '=', true), false); break;
  }
}
extern "C" void h_base64() {
  switch (lsx_concretize(lsx_range(0, 3, "variant"))) {
  case 0: rfc4648<6, 3, 4>(A64, true, ByteToBase64Convert(), Base64ToByteConvert(), false); break;
  case 1: rfc4648<6, 3, 4>(A64U, false, ByteToBase64Convert(ByteToBase64Convert::forUrlTable, 0), Base64ToByteConvert(Base64ToByteConvert::forUrlTable, 0), false); break;
  case 2: rfc4648<6, 3, 4>(A64U, true, ByteToBase64Convert(ByteToBase64Convert::forUrlTable, '='), Base64ToByteConvert(), false); break;
  case 3: rfc4648<6, 3, 4>(A64, false, ByteToBase64Convert(ByteToBase64Convert::standardTable, 0), Base64ToByteConvert(Base64ToByteConvert::standardTable, '='), false); break;
  }
}
// the filter classes of the older interface
extern "C" void h_base64old() {
  bool url = lsx_concretize(lsx_range(0, 1, "url")), nopad = lsx_concretize(lsx_range(0, 1, "noPadding"));
  unsigned n = lsx_concretize(lsx_range(0, NB, "n")); byte in[NB + 1]; lsx_bytes(in, n, "in");
  Base64Encoder e(url, nopad); Base64Decoder d; char enc[NB * 2 + 8]; unsigned o = 0, i = 0;
  while (i < n) { while (i < n && e.needItems()) e.input(in[i++]); while (e.hasItems()) { CHECK(o < NB * 2 + 8, "base64 filter: too much output"); enc[o++] = e.output(); } }
  e.flush(); while (e.hasItems()) { CHECK(o < NB * 2 + 8, "base64 filter: too much output"); enc[o++] = e.output(); }
  unsigned data = (n * 8 + 5) / 6; CHECK(o == (nopad ? data : (n + 2) / 3 * 4), "base64 filter: encoded length");
  for (unsigned k = 0; k < o; k++) { if (k >= data) { CHECK(enc[k] == '=', "base64 filter: padding"); continue; }
    unsigned v = 0; for (unsigned b = 0; b < 6; b++) { unsigned p = k * 6 + b; v = v << 1 | (p / 8 < n ? (in[p / 8] >> (7 - p % 8)) & 1 : 0); }
    CHECK(enc[k] == (url ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")[v], "base64 filter: encoded character"); }
  unsigned r = 0; i = 0;
  while (i < o) { while (i < o && d.needItems()) { if (i < data) CHECK(d.canAccept(enc[i]), "base64 filter: decoder refuses the encoder's character"); d.input(enc[i++]); } while (d.hasItems()) { byte b = d.output(); CHECK(r < n && b == in[r], "base64 filter: decode(encode(x)) != x"); r++; } if (!d.needItems()) break; }
  d.flush(); while (d.hasItems()) { byte b = d.output(); CHECK(r < n && b == in[r], "base64 filter: decode(encode(x)) != x"); r++; }
  CHECK(r == n, "base64 filter: decoded length");
  lsx_reach("done");
}
// two messages through the same converter object, separated by flush(): a write after the end of a block starts another one
template<class Enc, class Dec, unsigned CAP> static void reuse(const Enc& einit, const Dec& dinit) {
  Enc e(einit); Dec d(dinit);
  for (unsigned k = 0; k < 2; k++) {
    unsigned n = lsx_concretize(lsx_range(0, NR, "n")); byte in[NR + 1]; lsx_bytes(in, n, "in");
    Sink<char, CAP> enc, fresh; Sink<byte, NR + 1> dec;
    for (unsigned i = 0; i < n; i++) e.writeToIter(in[i], enc);
    e.flushToIter(enc);
    convertBy(3, einit, in, n, fresh); CHECK(enc.n == fresh.n, "reused encoder: length"); for (unsigned i = 0; i < enc.n; i++) CHECK(enc.buf[i] == fresh.buf[i], "reused encoder: text differs from a fresh one");
    for (unsigned i = 0; i < enc.n; i++) d.writeToIter(enc.buf[i], dec);
    d.flushToIter(dec);
    Sink<byte, NR + 1> fdec; convertBy(3, dinit, enc.buf, enc.n, fdec);
    CHECK(dec.n == fdec.n, "reused decoder: length"); for (unsigned i = 0; i < dec.n; i++) CHECK(dec.buf[i] == fdec.buf[i], "reused decoder: bytes differ from a fresh one");
  }
  lsx_reach("done");
}
extern "C" void h_reuse16() { reuse<ByteToBase16Convert, Base16ToByteConvert, 2 * NR + 2>(ByteToBase16Convert(), Base16ToByteConvert()); }
extern "C" void h_reuse85() { reuse<ByteToBase85Convert, Base85ToByteConvert, 2 * NR + 9>(ByteToBase85Convert(), Base85ToByteConvert()); }
extern "C" void h_reuse32() { bool pad = pick2("pad"); reuse<ByteToBase32Convert, Base32ToByteConvert, 2 * NR + 9>(ByteToBase32Convert(ByteToBase32Convert::standardTable, pad ? '=' : 0), Base32ToByteConvert()); }
extern "C" void h_reuse64() { bool pad = pick2("pad"); reuse<ByteToBase64Convert, Base64ToByteConvert, 2 * NR + 5>(ByteToBase64Convert(ByteToBase64Convert::standardTable, pad ? '=' : 0), Base64ToByteConvert()); }
// ---- base85 (Z85 alphabet).  A group of k=1..4 bytes is the number v formed by them (missing bytes are 0), written as k+1 base-85 digits,
// most significant first; reading pads with the digit 84.  The round trip follows from the digit formulas (h_base85, h_base85dec check them for
// every value); h_base85rt checks it directly for all 1- and 2-byte messages.
static const char Z85[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ.-:+=^!/*?&<>()[]{}@%$#";
extern "C" void h_base85() {
  unsigned n = lsx_concretize(lsx_range(0, NB, "n")); unsigned m = lsx_concretize(lsx_range(0, 3, "encMode"));
  byte in[NB + 1]; lsx_bytes(in, n, "in");
  Sink<char, (NB + 3) / 4 * 5 + 1> enc; convertBy(m, ByteToBase85Convert(), in, n, enc);
  unsigned len = n / 4 * 5 + (n % 4 ? n % 4 + 1 : 0);
  CHECK(enc.n == len, "base85: encoded length");
  for (unsigned g = 0; g * 4 < n; g++) { uint32_t v = 0; for (unsigned k = 0; k < 4; k++) v = v << 8 | (g * 4 + k < n ? in[g * 4 + k] : 0);
    uint32_t div[5] = {52200625u, 614125u, 7225u, 85u, 1u};
    for (unsigned k = 0; k < 5 && g * 5 + k < enc.n; k++) CHECK(enc.buf[g * 5 + k] == Z85[v / div[k] % 85], "base85: wrong digit"); }
  lsx_reach("done");
}
#ifndef NCMIN
#define NCMIN 0
#endif
extern "C" void h_base85dec() {
  unsigned n = lsx_concretize(lsx_range(NCMIN, NC, "chars")); unsigned m = lsx_concretize(lsx_range(0, 3, "decMode"));
  if (n % 5 == 1) lsx_stop_path();
  static const byte VAL[96] = { 0,68,0,84,83,82,72,0,75,76,70,65,0,63,62,69, 0,1,2,3,4,5,6,7,8,9,64,0,73,66,74,71, 81,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,
    51,52,53,54,55,56,57,58,59,60,61,77,0,78,67,0, 0,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24, 25,26,27,28,29,30,31,32,33,34,35,79,0,80,0,0 };
  for (unsigned i = 0; i < 85; i++) CHECK(VAL[Z85[i] - 32] == i, "harness table");
  byte dig[NC + 1]; char in[NC + 1]; lsx_bytes(in, n, "in");
  for (unsigned i = 0; i < n; i++) { lsx_assume(in[i] >= 33); byte b = (byte)in[i]; dig[i] = VAL[b - 32]; lsx_assume(dig[i] != 0 || in[i] == '0'); }
  Sink<byte, NC + 1> dec; convertBy(m, Base85ToByteConvert(), in, n, dec);
  unsigned len = n / 5 * 4 + (n % 5 ? n % 5 - 1 : 0);
  CHECK(dec.n == len, "base85: decoded length");
  for (unsigned g = 0; g * 5 < n; g++) { uint32_t v = 0; for (unsigned k = 0; k < 5; k++) v = v * 85 + (g * 5 + k < n ? dig[g * 5 + k] : 84);
    for (unsigned k = 0; k < 4 && g * 4 + k < len; k++) CHECK(dec.buf[g * 4 + k] == (byte)(v >> (24 - 8 * k)), "base85: wrong byte"); }
  lsx_reach("done");
}
extern "C" void h_base85rt() {
  unsigned n = lsx_concretize(lsx_range(0, 1, "n")), pre = lsx_concretize(lsx_range(0, 1, "full group before")) * 4; unsigned m = lsx_concretize(lsx_range(0, 3, "encMode")), m2 = (m + n) & 3;
  byte in[7] = {0x86, 0x4F, 0xD2, 0x6F}; if (pre == 0) in[0] = 0; lsx_bytes(in + pre, n, "in"); n += pre;
  Sink<char, 12> enc; convertBy(m, ByteToBase85Convert(), in, n, enc);
  if (pre) { const char* h = "Hello"; for (int i = 0; i < 5; i++) CHECK(enc.buf[i] == h[i], "base85: the published test vector"); }
  Sink<byte, 8> dec; convertBy(m2, Base85ToByteConvert(), enc.buf, enc.n, dec);
  CHECK(dec.n == n, "base85: decoded length");
  for (unsigned i = 0; i < n; i++) CHECK(dec.buf[i] == in[i], "base85: decode(encode(x)) != x");
  lsx_reach("done");
}
// ---- decoders fed with arbitrary text: no memory error, bounded output
template<class Dec> static void junk(const Dec& dinit, unsigned perItems, unsigned perOut) {
  unsigned n = lsx_concretize(lsx_range(0, NB, "n")); unsigned m = lsx_concretize(lsx_range(0, 3, "mode")); char in[NB + 1]; lsx_bytes(in, n, "in");
  Sink<byte, 2 * NB + 8> out; 
  try { convertBy(m, dinit, in, n, out); } catch (const IteratorNoMoreItems&) { lsx_reach("refused"); }
  CHECK(out.n * perItems <= (n + perItems - 1) * perOut, "decoder produces more bytes than the text can hold");
  lsx_reach("done");
}
extern "C" void h_junk85() { junk(Base85ToByteConvert(), 5, 4); }
extern "C" void h_junk64() { junk(Base64ToByteConvert(), 4, 3); }
extern "C" void h_junk32() { junk(Base32ToByteConvert(), 8, 5); }
extern "C" void h_junk16() { junk(Base16ToByteConvert(), 2, 1); }
