// tracked element: every copy has an identity; construction and destruction must pair up
#pragma once
#include "lsx.h"
#include <new>
struct TrFailed {};
struct Tr {
  const Tr* self; unsigned v;
  static int live;
  Tr() : self(this), v(0) { ++live; }
  explicit Tr(unsigned x) : self(this), v(x) { ++live; }
  static int fuse; // the n-th copy fails
  Tr(const Tr& o) : self(this), v(o.v) { CHECK(o.self == &o, "copied from an object which is not alive"); if (fuse && !--fuse) { self = 0; throw TrFailed(); } ++live; }
  ~Tr() { CHECK(self == this, "destroyed an object which is not alive"); self = 0; --live; }
  Tr& operator=(const Tr& o) { CHECK(self == this && o.self == &o, "assignment with an object which is not alive"); v = o.v; return *this; }
  bool ok() const { return self == this; }
  bool operator==(const Tr& o) const { return v == o.v; } bool operator!=(const Tr& o) const { return v != o.v; }
  bool operator<(const Tr& o) const { return v < o.v; } bool operator>(const Tr& o) const { return v > o.v; }
  bool operator<=(const Tr& o) const { return v <= o.v; } bool operator>=(const Tr& o) const { return v >= o.v; }
};
int Tr::live = 0, Tr::fuse = 0;
static inline unsigned pick(unsigned lo, unsigned hi, const char* n) { return lo >= hi ? lo : (unsigned)lsx_concretize(lsx_range(lo, hi, n)); }
static inline unsigned val(const char* n) { return lsx_u8(n); }
// small reference model of a sequence
template<unsigned CAP> struct SeqT {
  unsigned a[CAP]; unsigned n;
  SeqT() : n(0) {}
  void ins(unsigned at, unsigned v) { for (unsigned i = n; i > at; i--) a[i] = a[i - 1]; a[at] = v; n++; }
  void del(unsigned at) { for (unsigned i = at; i + 1 < n; i++) a[i] = a[i + 1]; n--; }
};
