// Pool of resources shared by threads
#include "mt.h"
#include "lightspeed/base/containers/resourcePool.h"
#include "lightspeed/mt/exceptions/timeoutException.h"
using namespace LightSpeed;
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
#ifndef NT
#define NT 2
#endif
static volatile int dummy;
static int alive, held, made, maxLimit;
struct Boom {};
struct Res : AbstractResource {
  int holders; bool bad; unsigned tag; Res() : holders(0), bad(false), tag(0x1234) { lsx_nosched(1); alive++; made++; CHECK(alive <= maxLimit, "more resources than the limit"); lsx_nosched(0); }
  ~Res() { lsx_nosched(1); CHECK(tag == 0x1234 && holders == 0, "resource destroyed while it is held"); tag = 0; alive--; lsx_nosched(0); }
  bool expired() const { return bad || AbstractResource::expired(); } };
struct Pool : AbstractResourcePool { int fail; Pool(natural l, natural r, natural w) : AbstractResourcePool(l, r, w), fail(0) {}
  AbstractResource* createResource() { lsx_sched_point(&dummy, 1); lsx_nosched(1); bool f = fail > 0; if (f) fail--; lsx_nosched(0); if (f) throw Boom(); return new Res; } const char* getResourceName() const { return "res"; } };
static Pool* P; static natural waitMs;
static void take(Res* r) { lsx_nosched(1); CHECK(r && r->tag == 0x1234, "resource which no longer exists"); CHECK(!r->bad, "expired resource is given out"); CHECK(r->holders++ == 0, "two holders of one resource"); held++; lsx_nosched(0); }
static void give(Res* r, bool bad) { lsx_nosched(1); CHECK(r->tag == 0x1234, "held resource destroyed"); r->bad = bad; CHECK(--r->holders == 0, "two holders"); held--; lsx_nosched(0); }
struct US : MtJob { int rounds; bool bad, shared; int got, failed, timeouts; void run() { got = failed = timeouts = 0; for (int i = 0; i < rounds; i++) try {
    ResourcePtr<Res> p(*P); take(p); got++; { if (shared) { ResourcePtr<Res> q(p); CHECK(q.get() == p.get() && p.isShared(), "shared pointer"); } lsx_sched_point(&dummy, 1); CHECK(p->holders == 1, "released by a copy"); } give(p, bad); }
  catch (const Boom&) { failed++; } catch (const TimeoutException&) { timeouts++; CHECK(waitMs != naturalNull, "timeout although the wait is not limited"); } } };
struct SL : MtJob { natural to; bool on; void run() { if (on) P->setLimit(to); } };
extern "C" void h_pool() {
  mtBegin(); natural limit = 1 + pick(2, "limit"), newLimit = 1 + pick(2, "newLimit"); maxLimit = limit > newLimit ? limit : newLimit; waitMs = pick(2, "timed") ? 10 : naturalNull;
  { Pool p(limit, naturalNull, waitMs); P = &p; int fails = p.fail = pick(2, "fail"); US t[3]; SL s; s.on = newLimit != limit; s.to = newLimit; int rounds = 0; for (int i = 0; i < NT; i++) { t[i].rounds = 1 + (i == 0 ? pick(2, "rounds") : 0); t[i].bad = pick(2, "expires"); t[i].shared = i == 0 && pick(2, "shared"); rounds += t[i].rounds; }
    if (NT == 1) mtStart(&t[0], &s); else if (s.on) mtStart(&t[0], &t[1], &s); else mtStart(&t[0], &t[1]); mtJoin(NT == 1 ? 2 : s.on ? 3 : 2);
    int got = 0, failed = 0, to = 0; for (int i = 0; i < NT; i++) { got += t[i].got; failed += t[i].failed; to += t[i].timeouts; }
    CHECK(held == 0 && got + failed + to == rounds, "every request ends"); CHECK(failed + p.fail == fails, "failures"); CHECK(p.getLimit() == newLimit, "limit"); p.fail = 0; p.waitTimeout = 0;
    Res* r[2]; for (natural i = 0; i < newLimit; i++) try { r[i] = static_cast<Res*>(p.acquire()); take(r[i]); } catch (const TimeoutException&) { CHECK(false, "place for a resource is lost"); }
    bool over = false; try { p.acquire(); over = true; } catch (const TimeoutException&) {} CHECK(!over, "more resources than the limit at the end"); CHECK(alive == (int)newLimit, "resources at the end");
    for (natural i = 0; i < newLimit; i++) { give(r[i], false); p.release(r[i]); } lsx_reach("done"); }
  CHECK(alive == 0, "resource not destroyed with its pool");
}
// raising the limit lets as many waiting threads go on as there are new places, although nothing is returned
static volatile int up, goal;
struct UW : MtJob { void run() { ResourcePtr<Res> p(*P); take(p); lsx_nosched(1); up++; lsx_nosched(0); while (up < goal) lsx_yield(); give(p, false); } };
extern "C" void h_raise() {
  mtBegin(); maxLimit = 3; waitMs = naturalNull; { Pool p(1, naturalNull, naturalNull); P = &p; UW t[2]; SL s; goal = 1 + pick(2, "raise"); s.on = true; s.to = 1 + goal; Res* own = static_cast<Res*>(p.acquire()); take(own); mtStart(&t[0], &t[1], &s); mtJoin(3); CHECK(up == 2, "every request ends"); give(own, false); p.release(own); lsx_reach("done"); }
  CHECK(alive == 0, "resource not destroyed with its pool");
}
