#include "lsx.h"
#include "lightspeed/base/timestamp.h"
#include "lightspeed/base/exceptions/exception.h"
#include <string.h>
using namespace LightSpeed;
static unsigned pick(unsigned n, const char* w) { return n <= 1 ? 0 : lsx_concretize(lsx_range(0, n - 1, w)); }
#define OF(a) (a)[pick(sizeof(a) / sizeof(*(a)), #a)]
static const int64_t DM = 86400000;
static TimeStamp any(int64_t& d, int64_t& t, const char* n) { d = (int64_t)lsx_range(0, 0xFFFFF, n) - 0x80000; t = lsx_range(0, DM - 1, n); return TimeStamp((integer)d, (natural)t); }
static void same(const TimeStamp& x, int64_t day, int64_t time, const char* what) { CHECK((x.getDay() == day) & ((int64_t)x.getTime() == time), what); }
extern "C" void h_tsarith() {
  int64_t da, ta, db, tb; TimeStamp a = any(da, ta, "a"), b = any(db, tb, "b"), c;
  same(a, da, ta, "time stamp: another day and time than created from");
  int64_t ts = ta + tb, cy = ts >= DM; same(a + b, da + db + cy, ts - (cy ? DM : 0), "time stamp: wrong sum");
  int64_t td = ta - tb, bw = td < 0; same(a - b, da - db - bw, td + (bw ? DM : 0), "time stamp: wrong difference");
  int64_t over = lsx_range(0, 255, "over"); same(TimeStamp((integer)da, (natural)(ta + (over & 3) * DM)), da + (over & 3), ta, "time stamp: more than a day of time not carried to the day");
  bool lt = (da < db) | ((da == db) & (ta < tb)), eq = (da == db) & (ta == tb);
  CHECK(((a < b) == lt) & ((a == b) == eq) & ((a > b) == (!lt & !eq)) & ((a <= b) == (lt | eq)) & ((a >= b) == !lt) & ((a != b) == !eq), "time stamp: compared in another order than the time runs");
  CHECK(a.isNull() == ((da == 0) & (ta == 0)), "time stamp: isNull"); CHECK(c.isNull(), "time stamp: default is not null");
  CHECK((int64_t)a.getMilis() == da * DM + ta, "time stamp: total of milliseconds");
  lsx_reach("done");
}
extern "C" void h_tsunix() {
  static const int64_t base[] = {0, 86400, 951782400, 951868800, 1582934400, 2147483648ll, 4102444800ll, -86400, -2208988800ll, 3600, -1000, 86399 * 3};
  int64_t t = OF(base) + (int64_t)lsx_range(0, 31, "delta") - 16; unsigned ms = lsx_range(0, 999, "ms");
  TimeStamp a = TimeStamp::fromUnix(t), b = TimeStamp::fromUnix(t, ms);
  CHECK(a.asUnix() == t, "unix time: converted to another time and back"); CHECK((a.getTime() < (natural)DM) & (a.getMS() == 0), "unix time: time in a day out of range");
  CHECK(b.asUnix() == t, "unix time with milliseconds: converted to another time and back"); CHECK(b.getMS() == ms, "unix time: milliseconds lost");
  CHECK((b.getDay() == a.getDay()) & (b.getTime() == a.getTime() + ms), "unix time: milliseconds are not counted from the second");
  if (t >= 0) { TimeStamp c = TimeStamp::fromSeconds(t); CHECK(c == a, "time stamp: from seconds"); }
  lsx_reach("done");
}
extern "C" void h_tswin() {
  static const int64_t base[] = {0, 86400, 951782400, 2147483648ll, 4102444800ll, -86400, -2208988800ll}; static const unsigned mss[] = {0, 1, 999}, tk[] = {0, 9999};
  int64_t t = OF(base) + (int64_t)lsx_range(0, 31, "delta") - 16; unsigned ms = OF(mss);
  uint64_t w = (uint64_t)(t + 11644473600ll) * 10000000 + ms * 10000 + OF(tk); TimeStamp c = TimeStamp::fromWindows((unsigned long)(w & 0xFFFFFFFF), (unsigned long)(w >> 32));
  CHECK((c.asUnix() == t) & (c.getMS() == ms), "time stamp: from windows file time"); lsx_reach("done");
}
extern "C" void h_tsinterval() {
  static const uint64_t per[] = {86400000, 86400, 1440, 24, 1}; unsigned u = pick(5, "unit"); static const uint64_t k[] = {0, 1, 2, 7, 365, 20000};
  uint64_t b = per[u] * OF(k), q = lsx_range(0, 31, "delta"); if (pick(2, "below")) { lsx_assume(b >= 32); b -= 32; } uint64_t n = b + q, m = 86400000 / per[u], tot = n * m;
  TimeStamp x = u == 0 ? TimeStamp::intervalMSec(n) : u == 1 ? TimeStamp::intervalSec(n) : u == 2 ? TimeStamp::intervalMin(n) : u == 3 ? TimeStamp::intervalHour(n) : TimeStamp::intervalDay(n);
  CHECK((uint64_t)x.getDay() * DM + x.getTime() == tot, "interval: another length"); CHECK(x.getTime() < (natural)DM, "interval: more than a day in the time part");
  CHECK(x.getMilis() == tot, "interval: milliseconds"); CHECK(x.getSecs() == tot / 1000, "interval: seconds"); CHECK(x.getMins() == tot / 60000, "interval: minutes"); CHECK(x.getHours() == tot / 3600000, "interval: hours");
  lsx_reach("done");
}
// ---- calendar
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mdays(int y, int m) { return m == 2 ? 28 + leap(y) : 30 + ((m + (m > 7)) & 1); }
static int64_t dayNo(int y, int m, int d) { int64_t n = 0; for (int i = 1970; i < y; i++) n += 365 + leap(i); for (int i = y; i < 1970; i++) n -= 365 + leap(i); for (int i = 1; i < m; i++) n += mdays(y, i); return n + d - 1; }
static void put(char*& p, unsigned v, unsigned w) { for (unsigned i = w; i--;) { p[i] = '0' + v % 10; v /= 10; } p += w; }
static void put(char*& p, const char* s) { while (*s) *p++ = *s++; }
struct Cal { int y, m, d, h, mi, s; int64_t day, time; };
// one of the fields takes all its values, the others some of theirs
static Cal cal() {
  static const int ys[] = {2000, 1970, 2100, 1969, 2024, 1901, 2038}; static const int ms[] = {1, 2, 3, 12}; Cal c = {OF(ys), OF(ms), 1, 0, 0, 0, 0, 0};
  unsigned f = pick(4, "field"), hi = pick(2, "others");
  if (hi) { c.d = mdays(c.y, c.m); c.h = 23; c.mi = 59; c.s = 59; }
  unsigned v = lsx_range(0, 31, "value");
  if (f == 0) { lsx_assume(v < (unsigned)mdays(c.y, c.m)); c.d = 1 + v; } else if (f == 1) { lsx_assume(v < 24); c.h = v; } else if (pick(2, "half")) { lsx_assume(v < 28); (f == 2 ? c.mi : c.s) = v + 32; } else (f == 2 ? c.mi : c.s) = v;
  c.day = dayNo(c.y, c.m, 1) + c.d - 1; c.time = (c.h * 3600 + c.mi * 60 + c.s) * 1000; return c;
}
template<class S> static void text(const S& s, const char* b, char* e, const char* what) { unsigned n = e - b; CHECK(s.length() == n, what); bool ok = true; for (unsigned i = 0; i < n; i++) ok = ok & (s[i] == b[i]); CHECK(ok, what); }
extern "C" void h_tscal() {
  Cal c = cal(); TimeStamp x = TimeStamp::fromYMDhms(c.y, c.m, c.d, c.h, c.mi, c.s);
  same(x, c.day, c.time, "calendar: time stamp of another date or time"); CHECK(x.asUnix() == c.day * 86400 + c.time / 1000, "calendar: another unix time");
  unsigned ms = pick(2, "ms") ? 499 : 0; TimeStamp z(c.day, c.time + ms);
  char b[64], *p = b; put(p, c.y, 4); *p++ = '-'; put(p, c.m, 2); *p++ = '-'; put(p, c.d, 2); *p++ = ' '; put(p, c.h, 2); *p++ = ':'; put(p, c.mi, 2); *p++ = ':'; put(p, c.s, 2);
  TimeStamp::DBTime db = z.asDBTime(); text(db, b, p, "database time: another text"); CHECK(TimeStamp::fromDBTime(ConstStrA(b, p - b)) == x, "database time: read back as another time");
  CHECK(TimeStamp::fromDBDate(ConstStrA(b, 10)) == TimeStamp((integer)c.day), "database date: read back as another date");
  b[10] = 'T'; *p++ = 'Z'; TimeStamp::ISO8601Time is = z.asISO8601Time(); text(is, b, p, "ISO time: another text"); text(z.asJSONTime(), b, p, "JSON time: another text");
  CHECK(TimeStamp::fromISO8601Time(ConstStrA(b, p - b)) == x, "ISO time: read back as another time"); CHECK(TimeStamp::fromJSONTime(ConstStrA(b, p - b)) == x, "JSON time: read back as another time");
  static const char* dn = "ThuFriSatSunMonTueWed"; static const char* mn = "JanFebMarAprMayJunJulAugSepOctNovDec"; unsigned wd = (unsigned)(c.day + 70000) % 7;
  p = b; for (int i = 0; i < 3; i++) *p++ = dn[wd * 3 + i]; put(p, ", "); put(p, c.d, 2); *p++ = ' '; for (int i = 0; i < 3; i++) *p++ = mn[(c.m - 1) * 3 + i]; *p++ = ' '; put(p, c.y, 4); *p++ = ' '; put(p, c.h, 2); *p++ = ':'; put(p, c.mi, 2); *p++ = ':'; put(p, c.s, 2); put(p, " GMT");
  text(z.asRFC1123Time(), b, p, "RFC 1123 time: another text");
  StringA f = z.formatTime("%d.%m.%Y %H"); p = b; put(p, c.d, 2); *p++ = '.'; put(p, c.m, 2); *p++ = '.'; put(p, c.y, 4); *p++ = ' '; put(p, c.h, 2); text(f, b, p, "formatTime: another text");
  lsx_reach("done");
}
extern "C" void h_tsiso() {
  static const int ys[] = {2000, 1969, 2023}; int y = OF(ys), m = 3, d = 1, h = 0, mi = 0, s = 0; unsigned md = pick(2, "mode"), df = md ? 0 : pick(8, "date form"), tf = md ? 1 + pick(6, "time form") : pick(2, "time") * 5, zf = md ? pick(6, "zone") : 4, fr = md ? pick(3, "fraction") : 0, v = lsx_range(0, 31, "value"), wh = pick(4, "field");
  char b[64], *p = b; int64_t day;
  if (wh == 0) { lsx_assume(v < 31); d = 1 + v; } else if (wh == 1) { lsx_assume(v < 24); h = v; mi = 59; s = 58; } else if (wh == 2) { mi = v + 28; h = 23; } else s = v + 28;
  if (df == 3 || df == 6) m = 1;
  switch (df) {
    case 0: put(p, y, 4); *p++ = '-'; put(p, m, 2); *p++ = '-'; put(p, d, 2); break;
    case 1: put(p, y, 4); put(p, m, 2); put(p, d, 2); break;
    case 2: put(p, y % 100, 2); *p++ = '-'; put(p, m, 2); *p++ = '-'; put(p, d, 2); break;
    case 3: put(p, y, 4); *p++ = '-'; put(p, d, 3); break;
    case 4: put(p, y % 100, 2); put(p, m, 2); put(p, d, 2); break;
    case 5: d = 1; put(p, y, 4); *p++ = '-'; put(p, m, 2); break;
    case 6: put(p, y, 4); put(p, d, 3); break;
    case 7: d = m = 1; put(p, y, 4); break;
  }
  day = dayNo(y, m, 1) + d - 1;
  if (tf) {
    *p++ = pick(2, "sep") ? ' ' : 'T'; bool ext = tf & 1; unsigned n = (tf + 1) / 2; put(p, h, 2); if (n > 1) { if (ext) *p++ = ':'; put(p, mi, 2); } if (n > 2) { if (ext) *p++ = ':'; put(p, s, 2); }
    if (n < 2) mi = 0; if (n < 3) s = 0;
    int64_t t = (h * 3600 + mi * 60 + s) * 1000;
    if (fr) { unsigned k = lsx_range(0, 31, "thousandths") * 31; lsx_assume(n == 3 && wh == 0); *p++ = '.'; put(p, k, 3); t += k; if (fr == 2) put(p, "99"); }
    static const int zh[] = {0, 0, 1, 13, 5, 11}; static const int zm[] = {0, 0, 0, 0, 30, 45}; int sg = 0;
    if (zf == 1) *p++ = 'Z'; else if (zf > 1) { sg = pick(2, "sign") ? 1 : -1; *p++ = sg > 0 ? '+' : '-'; put(p, zh[zf], 2); if (zf >= 3 || pick(2, "minutes")) { if (ext) *p++ = ':'; put(p, zm[zf], 2); } }
    t -= sg * (zh[zf] * 60 + zm[zf]) * 60000; int64_t o = t < 0 ? -1 : t >= DM; day += o; t -= o * DM;
    try { TimeStamp x = TimeStamp::fromISO8601Time(ConstStrA(b, p - b)); same(x, day, t, "ISO time: read as another time"); } catch (const Exception&) { lsx_fail("ISO time: valid time refused"); }
  } else
    try { TimeStamp x = TimeStamp::fromISO8601Time(ConstStrA(b, p - b)); same(x, day, 0, "ISO date: read as another date"); } catch (const Exception&) { lsx_fail("ISO date: valid date refused"); }
  lsx_reach("done");
}
// anything which is not a digit in place of a digit is refused
extern "C" void h_tsjunk() {
  static const char* forms[] = {"2001-02-03T04:05:06Z", "20010203T040506", "2001-02-03T04:05:06.789+01:30", "2001-034", "2001-02-03 04:05", "2001", "2001-02-03T04"};
  char b[40]; unsigned f = pick(7, "form"), n = 0; while (forms[f][n]) { b[n] = forms[f][n]; n++; } unsigned at = pick(n, "at"); lsx_assume(b[at] >= '0' && b[at] <= '9');
  unsigned char c = lsx_u8("char"); lsx_assume((c > 32) & !((c >= '0') & (c <= '9')) & (c != 'T') & (c != 'Z') & (c != '+') & (c != '-') & (c != '.') & (c != 'W') & (c < 128)); b[at] = (char)c;
  try { TimeStamp::fromISO8601Time(ConstStrA(b, n)); lsx_fail("ISO time: not a time, but accepted"); } catch (const TimeStamp::InvalidDateTimeFormat&) { lsx_reach("refused"); }
  if (f == 4) { try { TimeStamp::fromDBTime(ConstStrA(b, n)); lsx_fail("database time: not a time, but accepted"); } catch (const TimeStamp::InvalidDateTimeFormat&) {} }
}
