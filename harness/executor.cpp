// Executors: every action is carried out once or dropped, never after join()
#include "mt.h"
#include "lightspeed/base/actions/queueExecutor.h"
#include "lightspeed/base/actions/parallelExecutor.h"
#include "lightspeed/base/framework/app.h"
#include "lightspeed/mt/exceptions/threadException.h"
#include "lightspeed/mt/exceptions/timeoutException.h"
using namespace LightSpeed;
static unsigned pick(unsigned k, const char* n) { return lsx_concretize(lsx_range(0, k - 1, n)); }
struct Quiet { Quiet() { lsx_nosched(1); } ~Quiet() { lsx_nosched(0); } };
static volatile int ran[12], total, running, closed; static int copies, excs, order[16];
static void clearLog() { for (int i = 0; i < 12; i++) ran[i] = 0; total = running = closed = 0; copies = excs = 0; }
struct Act { int id; int kind; IExecutor* ex; Act(int i, int k, IExecutor* e) : id(i), kind(k), ex(e) { Quiet q; copies++; } Act(const Act& o) : id(o.id), kind(o.kind), ex(o.ex) { Quiet q; copies++; } ~Act() { Quiet q; copies--; }
  void operator()() const { { Quiet q; CHECK(!closed, "an action runs after join() returned"); CHECK(ex->isRunning(), "an executor which carries out an action looks idle"); running++; ran[id]++; order[total] = id; } lsx_sched_point(&running, 1);
    if (kind == 1) ex->execute(IExecutor::ExecAction::create(Act(id + 6, 0, ex)));
    if (kind == 2) { { Quiet q; running--; total++; } throw 5; }
    if (kind == 3) ex->finish();
    Quiet q; running--; total++; } };
static void exec(IExecutor* e, int id, int kind) { e->execute(IExecutor::ExecAction::create(Act(id, kind, e))); }
#ifndef NT
#define NT 2
#endif
#ifndef NA
#define NA 2
#endif
#ifndef MTREAL
struct Srv : MtJob { QueueExecutor* q; bool thrown; void run() { try { q->serve(); thrown = false; } catch (int) { thrown = true; Quiet z; excs++; } } };
extern "C" void h_qexec() {
  clearLog(); QueueExecutor* q = new QueueExecutor; Srv t[3]; for (int i = 0; i < NT; i++) t[i].q = q; unsigned late = pick(2, "late"), end = pick(2, "end"); int kinds[NA], exp = 0; bool fin = false;
  for (int i = 0; i < NA; i++) { kinds[i] = pick(4, "kind"); if (NT < 2 && kinds[i] == 2) lsx_stop_path(); exp += 1 + (kinds[i] == 1); if (kinds[i] == 3 || (kinds[i] == 2 && i)) fin = true; if (NT == 2 && kinds[i] == 2 && i && kinds[0] == 2) lsx_stop_path(); }
  CHECK(!q->isRunning(), "an idle executor looks busy");
  if (late) for (int i = 0; i < NA; i++) exec(q, i, kinds[i]);
  mtStart(&t[0], NT > 1 ? &t[1] : 0, NT > 2 ? &t[2] : 0);
  if (!late) for (int i = 0; i < NA; i++) exec(q, i, kinds[i]);
  if (end && !fin) while (total < exp) { int x = total; if (x < exp) lsx_block(&total, 4, x, 0, 0); }
  q->join(); { Quiet z; closed = 1; CHECK(running == 0, "an action runs after join() returned"); CHECK(!q->isRunning(), "an executor which was stopped looks busy"); CHECK(copies == 0, "an action exists after the end"); if (end && !fin) for (int i = 0; i < NA; i++) { CHECK(ran[i] == 1, "an action was not carried out exactly once"); CHECK(ran[i + 6] == (kinds[i] == 1), "an action was not carried out exactly once"); } else for (int i = 0; i < 12; i++) CHECK(ran[i] <= 1, "an action was carried out twice");
    if (NT == 1) for (int i = 1; i < total; i++) CHECK(order[i - 1] % 6 < order[i] % 6 || order[i] >= 6 || order[i - 1] >= 6, "actions carried out in another order"); }
  mtJoin(NT); delete q; lsx_reach("done");
}
extern "C" void h_qexecidle() {
  mtBegin(); clearLog(); QueueExecutor* q = new QueueExecutor; CHECK(!q->isRunning(), "an idle executor looks busy"); bool before = pick(2, "before"); if (before) exec(q, 0, 0); if (pick(2, "how")) q->join(); else CHECK(q->stopAll(pick(2, "timeout") ? naturalNull : 0), "an executor without threads does not stop");
  exec(q, 1, 0); CHECK(copies == 0, "an action was queued after the end"); q->serve(); q->reset(); exec(q, 2, 0); exec(q, 3, 3); exec(q, 4, 0); q->serve(); CHECK(ran[2] == 1 && ran[3] == 1 && total == 2, "actions after reset()"); CHECK(copies == 0, "an action exists after the end"); delete q; mtEnd(); lsx_reach("done");
}
// the destructor waits for the threads inside
extern "C" void h_qexecgone() {
  clearLog(); QueueExecutor* q = new QueueExecutor; Srv t; t.q = q; mtStart(&t, 0, 0); exec(q, 0, pick(2, "kind")); while (!ran[0]) lsx_block(&ran[0], 4, 0, 0, 0); if (pick(2, "more")) exec(q, 1, 0); delete q; { Quiet z; closed = 1; CHECK(running == 0 && copies == 0, "an action runs in a destroyed executor"); } mtJoin(1); lsx_reach("done");
}
#else
struct TApp : public IApp {
  virtual integer start(const Args&) { return 0; } virtual bool stop() { return true; }
  virtual TypeInfo getInterfaceType() const { return typeid(IApp); } virtual void addService(TypeInfo, IInterface*) {} virtual void removeService(TypeInfo) {} virtual void removeService(TypeInfo, IInterface*) {}
  virtual void onException(const Exception&) {} virtual void onThreadException(const Exception&) throw() { Quiet q; excs++; } };
static TApp* app;
namespace LightSpeed { IApp* IApp::currentPtr() { return app; } IApp& IApp::current() { return *app; } void IApp::exceptionDebug(const Exception&, IApp*) {} AppBase& AppBase::current() { throw 1; } }
extern "C" void h_pexec() {
  lsx_nosched(1); mtBegin(); app = new TApp; clearLog(); unsigned max = 1 + pick(2, "threads"), idle = pick(2, "idle"), end = pick(4, "end"); int kinds[NA], ex = 0; for (int i = 0; i < NA; i++) { kinds[i] = pick(2, "kind") * 2; if (kinds[i]) ex++; }
  { ParallelExecutor* p = new ParallelExecutor(max, naturalNull, 0, idle ? 5 : naturalNull); CHECK(!p->isRunning() && p->getThreadCount() == 0, "a new executor runs"); lsx_nosched(0);
    for (int i = 0; i < NA; i++) { exec(p, i, kinds[i]); if (end == 2 && i == 0) { p->join(); Quiet q; CHECK(total == 1 && running == 0, "join() left an action"); CHECK(!p->isRunning(), "a stopped executor runs"); } if (end == 3 && i == 0) p->finish(); }
    if (end == 1) { p->join(); Quiet q; CHECK(total == NA && running == 0, "join() left an action"); CHECK(p->getThreadCount() == 0, "threads left by join()"); }
    delete p; { Quiet q; CHECK(total == NA && running == 0, "an action was lost"); for (int i = 0; i < NA; i++) CHECK(ran[i] == 1, "an action was not carried out exactly once"); CHECK(copies == 0, "an action exists after the end"); CHECK(excs == ex, "an exception of an action was not reported"); }
    mtEnd(); lsx_nosched(1); delete app; }
  lsx_nosched(0); lsx_reach("done");
}
// a thread cannot be made: the action is carried out by another one or refused, never later
extern "C" void h_pexecfail() {
  lsx_nosched(1); mtBegin(); app = new TApp; clearLog(); bool have = pick(2, "have");
  { ParallelExecutor* p = new ParallelExecutor(2, naturalNull, 0, naturalNull); lsx_nosched(0); if (have) exec(p, 0, 0); mtFailCreate = 1; bool refused = false; try { exec(p, 1, 0); } catch (UnableToStartThreadException&) { refused = true; } mtFailCreate = 0; exec(p, 2, 0);
    delete p; { Quiet q; CHECK(ran[0] == have && ran[1] == !refused && ran[2] == 1 && copies == 0, "an action was lost or carried out after it was refused"); } mtEnd(); lsx_nosched(1); delete app; }
  lsx_nosched(0); lsx_reach("done");
}
// nobody takes the action in time
extern "C" void h_pexectime() {
  lsx_nosched(1); mtBegin(); app = new TApp; clearLog();
  { ParallelExecutor* p = new ParallelExecutor(1, 5, 0, naturalNull); lsx_nosched(0); bool r[2] = {true, true}; for (int i = 0; i < 2; i++) try { exec(p, i, 0); } catch (TimeoutException&) { r[i] = false; }
    delete p; { Quiet q; for (int i = 0; i < 2; i++) CHECK(ran[i] == r[i], "an action was lost or carried out after it was refused"); CHECK(copies == 0, "an action exists after the end"); } mtEnd(); lsx_nosched(1); delete app; }
  lsx_nosched(0); lsx_reach("done");
}
#endif
