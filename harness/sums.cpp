#include "lsx.h"
#include "lightspeed/utils/crc32.h"
#include "lightspeed/utils/md5iter.h"
#include "lightspeed/base/streams/compressNumb.h"
#include "lightspeed/base/containers/constStr.h"
#include "lightspeed/base/iter/iterator.h"
#include <string.h>
using namespace LightSpeed;
static unsigned pick(unsigned n, const char* w) { return n <= 1 ? 0 : lsx_concretize(lsx_range(0, n - 1, w)); }
// ---- CRC-32 (reflected polynomial EDB88320), bit by bit
static uint32_t crcBit(uint32_t c, unsigned char b) { c ^= b; for (int i = 0; i < 8; i++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); return c; }
extern "C" void h_crc() {
  unsigned char m[5]; unsigned n = 1 + pick(4, "len"), at = pick(n, "symbolic at"), fill = pick(3, "fill"), k = pick(n + 1, "split"); static const unsigned char fl[] = {0, 0xFF, 0xA5};
  for (unsigned i = 0; i < n; i++) m[i] = fl[fill] + i; m[at] = lsx_u8("byte");
  uint32_t r = ~0u; for (unsigned i = 0; i < n; i++) r = crcBit(r, m[i]);
  Crc32 a, b; CHECK(a.getCrc32() == 0, "CRC-32: of nothing is not 0"); a.blockWrite(m, k); a.blockWrite(m + k, n - k); for (unsigned i = 0; i < n; i++) b.write(m[i]);
  CHECK(b.getCrc32() == (uint32_t)~r, "CRC-32: another value"); CHECK(a.getCrc32() == b.getCrc32(), "CRC-32: depends on how the data was split"); CHECK(a.getCrc32() == b.getCrc32(), "CRC-32: reading it changes it");
  a.reset(); a.blockWrite(m, n); CHECK(a.getCrc32() == (uint32_t)~r, "CRC-32: reset did not start anew");
  lsx_reach("done");
}
// ---- MD5, RFC 1321 written as loops
static const uint32_t K[64] = {0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
static const unsigned S[16] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};
static void md5ref(const unsigned char* m, unsigned n, unsigned char* out) {
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; unsigned char b[192]; unsigned t = n; for (unsigned i = 0; i < n; i++) b[i] = m[i];
  b[t++] = 0x80; while (t % 64 != 56) b[t++] = 0; for (int i = 0; i < 8; i++) b[t++] = (unsigned char)(((uint64_t)n * 8) >> (8 * i));
  for (unsigned o = 0; o < t; o += 64) {
    uint32_t x[16]; for (int i = 0; i < 16; i++) x[i] = b[o + 4 * i] | (uint32_t)b[o + 4 * i + 1] << 8 | (uint32_t)b[o + 4 * i + 2] << 16 | (uint32_t)b[o + 4 * i + 3] << 24;
    uint32_t A = h[0], B = h[1], C = h[2], D = h[3];
    for (int i = 0; i < 64; i++) {
      uint32_t f; int g;
      if (i < 16) { f = (B & C) | (~B & D); g = i; } else if (i < 32) { f = (B & D) | (C & ~D); g = (5 * i + 1) & 15; } else if (i < 48) { f = B ^ C ^ D; g = (3 * i + 5) & 15; } else { f = C ^ (B | ~D); g = (7 * i) & 15; }
      uint32_t s = S[(i >> 4) * 4 + (i & 3)], v = A + f + x[g] + K[i]; A = D; D = C; C = B; B = ((v << s) | (v >> (32 - s))) + B;
    }
    h[0] += A; h[1] += B; h[2] += C; h[3] += D;
  }
  for (int i = 0; i < 16; i++) out[i] = (unsigned char)(h[i >> 2] >> ((i & 3) * 8));
}
#ifndef MAXN
#define MAXN 66
#endif
extern "C" void h_md5() {
  static const unsigned ls[] = {0, 1, 3, 55, 56, 63, 64, 65, 119, 120, 128}; unsigned n = ls[pick(11, "len")], mode = pick(3, "mode"); alignas(8) unsigned char room[136]; unsigned char d[16], *m = room + (mode == 0);
  for (unsigned i = 0; i < n; i++) m[i] = i * 37 + 11; unsigned at = 0; if (n) { static const unsigned ats[] = {0, 1, 54, 55, 63, 64, 127}; at = ats[pick(7, "symbolic at")]; lsx_assume(at < n); m[at] = (unsigned char)(lsx_range(0, 31, "byte") * 37 + 11); }
  md5ref(m, n, d);
  static const unsigned ks[] = {0, 1, 5, 55, 63, 64, 65}; unsigned k = ks[pick(7, "split")]; lsx_assume(k <= n);
  HashMD5<byte> h;
  if (mode == 0) { h.blockWrite(ConstStringT<byte>(m, k), true); h.blockWrite(ConstStringT<byte>(m + k, n - k), true); }
  else if (mode == 1) { for (unsigned i = 0; i < k; i++) h.write(m[i]); h.blockWrite(ConstStringT<byte>(m + k, n - k), true); }
  else { h.blockWrite(ConstStringT<byte>(m, k), true); for (unsigned i = k; i < n; i++) h.write(m[i]); }
  h.finish();
  ConstStringT<byte> r = h.digest(); CHECK(r.length() == 16, "MD5: length of the digest"); bool ok = true; for (unsigned i = 0; i < 16; i++) ok = ok & (r[i] == d[i]); CHECK(ok, "MD5: another digest");
  ConstStringT<char> x = h.hexdigest(); CHECK(x.length() == 32, "MD5: length of the hexadecimal digest"); ok = true; for (unsigned i = 0; i < 32; i++) { unsigned v = i & 1 ? d[i / 2] & 15 : d[i / 2] >> 4; ok = ok & ((unsigned char)x[i] == lsx_ite(v < 10, '0' + v, 'a' + v - 10)); } CHECK(ok, "MD5: hexadecimal digest shows another one");
  lsx_reach("done");
}
// the length of the message is counted in 64 bits
extern "C" void h_md5len() {
  md5_state_t s; md5_init(&s); s.count[0] = lsx_u32("low") & ~7u; s.count[1] = lsx_u32("high"); uint64_t bits = (uint64_t)s.count[1] << 32 | s.count[0]; unsigned char m[8] = {1, 2, 3, 4, 5, 6, 7, 8}; unsigned n = pick(9, "len"), of = 20 * pick(4, "offset"); s.count[0] = (s.count[0] & ~511u) | of * 8; bits = (uint64_t)s.count[1] << 32 | s.count[0];
  md5_append(&s, m, n); CHECK(((uint64_t)s.count[1] << 32 | s.count[0]) == bits + n * 8, "MD5: length of the message miscounted"); lsx_reach("done");
}
// ---- variable length numbers
extern "C" void h_cnum() {
  uint64_t v = lsx_u64("number"), w = lsx_u64("other"); byte b[12], c[12]; for (unsigned i = 0; i < 12; i++) b[i] = c[i] = 0xEE;
  natural n = CompressNumb::compress(v, b); CHECK((n >= 1) & (n <= 9), "compressed number: length out of range"); CHECK(CompressNumb::numberLength(b[0]) == n, "compressed number: the first byte gives another length");
  bool kept = true; for (unsigned i = 0; i < 12; i++) kept = kept & ((i < n) | (b[i] == 0xEE)); CHECK(kept, "compressed number: wrote past its length");
  CHECK(CompressNumb::decompress(b) == v, "compressed number: decompressed to another number");
  natural m = CompressNumb::compress(w, c); if (v < w) { CHECK(n <= m, "compressed number: a lower number takes more space"); int o = 0; for (unsigned i = 9; i-- > 0;) o = lsx_ite((i < n) & (i < m) & (b[i] != c[i]), b[i] < c[i] ? 1 : 2, o); CHECK(n < 9 ? o == 1 : 1, "compressed number: order of numbers not kept by the bytes"); }
  lsx_reach("done");
}
extern "C" void h_cnumsigned() {
  int64_t v = (int64_t)lsx_u64("number"); byte b[12]; natural n = CompressNumb::compressSigned(v, b); CHECK(CompressNumb::numberLength(b[0]) == n, "compressed signed number: the first byte gives another length"); CHECK(CompressNumb::decompressSigned(b) == v, "compressed signed number: decompressed to another number"); lsx_reach("done");
}
extern "C" void h_cnumany() {
  byte b[9]; lsx_bytes(b, 9, "b"); natural n = CompressNumb::numberLength(b[0]); CHECK((n >= 1) & (n <= 9), "compressed number: length out of range"); uint64_t v = CompressNumb::decompress(b); byte c[9]; natural m = CompressNumb::compress(v, c);
  if (n < 9) { CHECK(m == n, "compressed number: two encodings of one number"); bool ok = true; for (unsigned i = 0; i < 9; i++) ok = ok & ((i >= n) | (b[i] == c[i])); CHECK(ok, "compressed number: two encodings of one number"); }
  lsx_reach("done");
}
