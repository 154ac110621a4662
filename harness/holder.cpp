// Holders of one value: Optional, Variant
#include "lsx.h"
#include <exception>
#include <new>
#include <typeinfo>
#include "tr.h"
#include "lightspeed/base/containers/optional.h"
#include "lightspeed/base/containers/variant.h"
#include "lightspeed/base/constructor.h"
#include "lightspeed/base/exceptions/pointerException.h"
using namespace LightSpeed;
#ifndef NS
#define NS 3
#endif
typedef Optional<Tr> O;
static void same(const O& o, bool has, unsigned v) {
  CHECK((o == nil) == !has && (o != nil) == has, "empty"); bool thrown = false;
  try { const Tr& r = o.value(); CHECK(r.ok() && r.v == v && o->v == v && ((const Tr&)o).v == v, "value"); } catch (const NullPointerException&) { thrown = true; } CHECK(thrown == !has, "value of an empty one is reported");
  thrown = false; try { o->ok(); } catch (const NullPointerException&) { thrown = true; } CHECK(thrown == !has, "-> of an empty one is reported");
}
struct Bomb { static int fuse; Tr t; Bomb(unsigned v) : t(v) {} Bomb(const Bomb& o) : t(o.t.v) { if (fuse && !--fuse) throw 5; } Bomb& operator=(const Bomb&); };
int Bomb::fuse;
extern "C" void h_optional() {
  { O o[2]; bool has[2] = {0, 0}; unsigned v[2] = {0, 0};
    if (pick(0, 1, "given")) { v[0] = val("v"); has[0] = true; Tr t(v[0]); O x(t); o[0] = x; }
    for (int s = 0; s < NS; s++) { unsigned i = pick(0, 1, "which"), k = 1 - i;
      switch (pick(0, 6, "op")) {
        case 0: { unsigned x = val("v"); Tr t(x); o[i] = t; has[i] = true; v[i] = x; break; }
        case 1: o[i] = nil; has[i] = false; break;
        case 2: o[i] = o[k]; has[i] = has[k]; v[i] = v[k]; break;
        case 3: { O& same = o[i]; o[i] = same; break; }
        case 4: if (has[i]) { unsigned x = val("v"); if (pick(0, 1, "arrow")) o[i]->v = x; else o[i].value().v = x; v[i] = x; } else { bool th = false; try { o[i].value().v = 1; } catch (const NullPointerException&) { th = true; } CHECK(th, "value of an empty one is reported"); } break;
        case 5: { O c(o[k]); same(c, has[k], v[k]); O e(nil); same(e, false, 0); break; }
        default: if (has[i]) { Tr& t = o[i].value(); o[i] = t; } else { unsigned x = val("v"); o[i] = Constructor1<Tr, unsigned>(x); has[i] = true; v[i] = x; } }
      for (int j = 0; j < 2; j++) same(o[j], has[j], v[j]); CHECK(Tr::live == has[0] + has[1], "values alive"); }
  } CHECK(Tr::live == 0, "values alive at the end"); lsx_reach("done");
}
extern "C" void h_optthrow() {
  { unsigned a = val("v"), b = val("v"); Bomb x(a), y(b); Optional<Bomb> o; bool has = pick(0, 1, "given"); if (has) o = x; Bomb::fuse = pick(0, 1, "fuse"); bool th = false; unsigned how = pick(0, 2, "how"); Optional<Bomb> s; if (how == 1) { unsigned f = Bomb::fuse; Bomb::fuse = 0; s = y; Bomb::fuse = f; } int f = Bomb::fuse;
    try { if (how == 0) o = y; else if (how == 1) o = s; else { Optional<Bomb> c(y); CHECK(!f, "thrown"); } } catch (int) { th = true; } Bomb::fuse = 0; CHECK(th == (f != 0), "thrown");
    if (how < 2) { if (th) CHECK(o == nil, "empty after a failed assignment"); else CHECK(o->t.v == b, "assigned"); } else CHECK((o != nil) == has && (!has || o->t.v == a), "untouched"); CHECK(Tr::live == 2 + (o != nil) + (s != nil), "values alive"); }
  CHECK(Tr::live == 0, "values alive at the end"); lsx_reach("done");
}
struct Base { int b; Base(int b) : b(b) {} virtual ~Base() {} }; struct Der : Base { Tr t; Der(int b, unsigned v) : Base(b), t(v) {} bool operator==(const Der& o) const { return b == o.b && t == o.t; } };
struct VM { int type; unsigned v; };
static Variant make(VM m) { switch (m.type) { case 1: return Variant((int)m.v); case 2: return Variant((unsigned short)m.v); case 3: return Variant(Tr(m.v)); case 4: return Variant(Der(7, m.v)); default: return Variant(); } }
static bool eq(VM a, VM b) { return a.type == b.type && (a.type == 0 || a.v == b.v); }
static void sameV(const Variant& x, VM m) {
  CHECK(x.isNull() == (m.type == 0) && (x == nil) == (m.type == 0) && (x != nil) == (m.type != 0), "null"); bool th = false;
  if (m.type == 0) { try { x.getType(); } catch (const NullPointerException&) { th = true; } CHECK(th, "type of null is reported"); CHECK(!x.canConvertTo<int>(), "null converts to nothing"); return; }
  CHECK(x.isType<int>() == (m.type == 1) && x.isType<unsigned short>() == (m.type == 2) && x.isType<Tr>() == (m.type == 3) && x.isType<Der>() == (m.type == 4) && !x.isType<Base>(), "type");
  try { unsigned g = m.type == 1 ? x.getValue<int>() : m.type == 2 ? x.getValue<unsigned short>() : m.type == 3 ? x.getValue<Tr>().v : x.getValue<Der>().t.v; CHECK(g == m.v, "value"); } catch (const std::bad_cast&) { CHECK(false, "value is of its type"); }
  th = false; try { if (m.type == 1) x.getValue<Tr>(); else x.getValue<int>(); } catch (const std::bad_cast&) { th = true; } CHECK(th, "value of another type is refused");
  CHECK(x.canConvertTo<int>() == (m.type == 1) && x.canConvertTo<Der>() == (m.type == 4) && x.canConvertTo<Base>() == (m.type == 4), "conversion"); if (m.type == 4) { const Base* b = x.getPtr<Base>(); CHECK(b && b->b == 7 && dynamic_cast<const Der*>(b) == x.getPtr<Der>(), "pointer to the base"); }
  CHECK((x == (int)m.v) == (m.type == 1) && (x != (int)m.v) == (m.type != 1) && (x == Tr(m.v)) == (m.type == 3), "compared with a value");
  unsigned got = 0; int type = 0; try { x.throwIt(); } catch (int i) { type = 1; got = i; } catch (unsigned short i) { type = 2; got = i; } catch (const Tr& t) { type = 3; got = t.v; } catch (const Base& t) { type = 4; got = static_cast<const Der&>(t).t.v; } CHECK(type == m.type && got == m.v, "thrown value");
}
extern "C" void h_variant() {
  { VM m[2]; Variant x[2]; for (int i = 0; i < 2; i++) { m[i].type = pick(0, 4, "type"); m[i].v = val("v"); x[i] = make(m[i]); }
    for (int s = 0; s < NS - 1; s++) { unsigned i = pick(0, 1, "which"), k = 1 - i; switch (pick(0, 3, "op")) { case 0: x[i] = x[k]; m[i] = m[k]; break; case 1: x[i] = x[k].isolate(); m[i] = m[k]; if (m[k].type == 3) CHECK(x[i].getPtr<Tr>() != x[k].getPtr<Tr>(), "isolated value is a copy"); break; case 2: { Variant c(x[i]); x[i] = Variant(); sameV(c, m[i]); if (m[i].type == 3) CHECK(Tr::live >= 1, "alive"); x[i] = c; break; } default: m[i].type = 0; x[i] = Variant(); }
      for (int j = 0; j < 2; j++) sameV(x[j], m[j]); CHECK((x[0] == x[1]) == eq(m[0], m[1]) && (x[0] != x[1]) == !eq(m[0], m[1]), "compared with another"); }
  } CHECK(Tr::live == 0, "values alive at the end"); lsx_reach("done");
}
