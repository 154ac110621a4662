// Models of C library functions, compiled to bitcode and linked for symbolic execution only.
#include "lsx.h"
#include <time.h>
extern "C" {
// proleptic Gregorian calendar, UTC
static long fdiv(long a, long b) { return a >= 0 ? a / b : -((b - 1 - a) / b); }
time_t timegm(struct tm* t) {
  long y = t->tm_year + 1900L + fdiv(t->tm_mon, 12), m = t->tm_mon - fdiv(t->tm_mon, 12) * 12, yy = m < 2 ? y - 1 : y, mp = m < 2 ? m + 10 : m - 2;
  long era = fdiv(yy, 400), yoe = yy - era * 400, days = era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + (153 * mp + 2) / 5 + t->tm_mday - 1 - 719468;
  time_t r = days * 86400 + t->tm_hour * 3600L + t->tm_min * 60L + t->tm_sec; gmtime_r(&r, t); return r;
}
struct tm* gmtime_r(const time_t* p, struct tm* t) {
  long days = fdiv(*p, 86400), s = *p - days * 86400, z = days + 719468, era = fdiv(z, 146097), doe = z - era * 146097;
  long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  long d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 2 : mp - 10, y = yoe + era * 400 + (m < 2);
  t->tm_year = y - 1900; t->tm_mon = m; t->tm_mday = d; t->tm_hour = s / 3600; t->tm_min = s / 60 % 60; t->tm_sec = s % 60;
  t->tm_wday = (days + 4) - fdiv(days + 4, 7) * 7; t->tm_yday = 0; t->tm_isdst = 0; return t;
}
size_t strftime(char* o, size_t cap, const char* f, const struct tm* t) {
  size_t n = 0;
  for (; *f; f++) {
    long v; int w = 2;
    if (*f != '%') { if (n + 1 >= cap) return 0; o[n++] = *f; continue; }
    switch (*++f) { case 'Y': v = t->tm_year + 1900; w = 4; break; case 'm': v = t->tm_mon + 1; break; case 'd': v = t->tm_mday; break; case 'H': v = t->tm_hour; break; case 'M': v = t->tm_min; break; case 'S': v = t->tm_sec; break; case 'w': v = t->tm_wday; w = 1; break; default: lsx_fail("strftime: unsupported conversion"); return 0; }
    if (n + w >= cap) return 0;
    for (int i = w; i--;) { o[n + i] = '0' + v % 10; v /= 10; } n += w;
  }
  o[n] = 0; return n;
}
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t wcslen(const int* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { size_t i = 0; while (a[i] && lc((unsigned char)a[i]) == lc((unsigned char)b[i])) i++; return lc((unsigned char)a[i]) - lc((unsigned char)b[i]); }
int strncasecmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { int x = lc((unsigned char)a[i]), y = lc((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
int atoi(const char* s) { int r = 0, n = 0; while (*s == ' ') s++; if (*s == '-') { n = 1; s++; } while (*s >= '0' && *s <= '9') r = r * 10 + (*s++ - '0'); return n ? -r : r; }
static int g_errno[16]; int* __errno_location() { return &g_errno[lsx_self() & 15]; }
char* strerror(int) { return (char*)"error"; }
char* __xpg_strerror_r(int, char* b, size_t n) { if (n) b[0] = 0; return b; }
char* strerror_r(int, char* b, size_t n) { if (n) b[0] = 0; return b; }
char* getenv(const char*) { return 0; }
int getpid() { return 4242; }
__attribute__((weak)) int sprintf(char* b, const char* f, ...) { int i = 0; for (; f[i]; i++) b[i] = f[i]; b[i] = 0; return i; }
int backtrace(void**, int) { return 0; }
char** backtrace_symbols(void* const*, int) { return 0; }
long random() { return (long)lsx_sym(31, "random"); }
int rand() { return (int)lsx_sym(31, "rand"); }
void srand(unsigned) {}
int sigemptyset(void*) { return 0; }
int sigfillset(void*) { return 0; }
int sigdelset(void*, int) { return 0; }
int sigaddset(void*, int) { return 0; }
int sigaction(int, const void*, void*) { return 0; }
__attribute__((weak)) int __sigsetjmp(void*, int) { return 0; }
int sigprocmask(int, const void*, void*) { return 0; }
int pthread_sigmask(int, const void*, void*) { return 0; }
void* signal(int, void*) { return 0; }
char* __cxa_demangle(const char*, char*, size_t*, int*st) { if (st) *st = -1; return 0; }
}
namespace std { typedef void (*terminate_handler)(); terminate_handler set_terminate(terminate_handler) throw() { return 0; } }
// std::exception and friends: members that live in libstdc++
#include <exception>
#include <new>
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
}
// red-black tree primitives of libstdc++ (std::map): an unbalanced search tree keeps the same observable order
namespace std {
enum _Rb_tree_color { _S_red = false, _S_black = true };
struct _Rb_tree_node_base { _Rb_tree_color c; _Rb_tree_node_base *p, *l, *r; };
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->r) { x = x->r; while (x->l) x = x->l; return x; }
  _Rb_tree_node_base* y = x->p; while (x == y->r) { x = y; y = y->p; }
  return x->r != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->c == _S_red && x->p->p == x) return x->r;
  if (x->l) { x = x->l; while (x->r) x = x->r; return x; }
  _Rb_tree_node_base* y = x->p; while (x == y->l) { x = y; y = y->p; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->p = p; x->l = x->r = 0; x->c = _S_black;
  if (left) { p->l = x; if (p == &h) { h.p = x; h.r = x; } else if (p == h.l) h.l = x; }
  else { p->r = x; if (p == h.r) h.r = x; }
}
}
