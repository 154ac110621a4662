// Stand-in for the platform's thread layer (mt/linux/thread.cpp) under the lock harnesses:
// every lsx thread has a Thread object with the library's own ThreadSleeper (mt/linux/threadSleeper.cpp) over a
// modelled POSIX semaphore.  Sleepers die when their thread ends (mtEnd), as they do when the Thread object is destroyed.
#include "mt.h"
#include "lightspeed/mt/atomic.h"
#include <sys/time.h>
#include <time.h>
#ifdef MTREAL
// the library's own Thread (mt/linux/thread.cpp) over modelled POSIX threads; signals are never delivered
#include "lightspeed/base/linux/seh.h"
namespace LightSpeed {
class ThreadContext; extern __thread ThreadContext* currentContext;
LinuxSEH::LinuxSEH() : prevsignfn(0), prevjmpbuf(0), swp(false), signum(0) {}
LinuxSEH::LinuxSEH(SignalFunction) : prevsignfn(0), prevjmpbuf(0), swp(false), signum(0) {}
LinuxSEH::~LinuxSEH() {}
int LinuxSEH::except() { return 0; }
void LinuxSEH::init() {}
void LinuxSEH::output_stack_trace() {}
}
using namespace LightSpeed;
int mtFailCreate;                       // the next pthread_create() fails
static struct Pt { void* (*fn)(void*); void* arg; } pts[8]; static int npt; static volatile int nended;
static void ptRun(void* a) { Pt* p = (Pt*)a; p->fn(p->arg); lsx_nosched(1); nended++; lsx_nosched(0); }
extern "C" int __sigsetjmp(struct __jmp_buf_tag*, int) { return 0; }
extern "C" int pthread_create(pthread_t* id, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (mtFailCreate) { mtFailCreate--; return EAGAIN; }
  lsx_nosched(1); Pt* p = &pts[npt++]; p->fn = fn; p->arg = arg; int t = lsx_thread_create(ptRun, p); *id = 0x1000 + t; lsx_nosched(0); lsx_sched_point(&nended, 1); return 0;
}
extern "C" int pthread_attr_init(pthread_attr_t*) { return 0; }
extern "C" int pthread_attr_destroy(pthread_attr_t*) { return 0; }
extern "C" int pthread_attr_setdetachstate(pthread_attr_t*, int) { return 0; }
extern "C" int pthread_attr_setstacksize(pthread_attr_t*, size_t) { return 0; }
extern "C" void lsx_tls(void*);
void mtBegin() { npt = 0; nended = 0; lsx_tls(&currentContext); Thread::getMaster(); }
void mtEnd() { while (nended < npt) lsx_block(&nended, 4, npt, 1, 0); }
int mtEnded() { return nended; }
#else
namespace LightSpeed {
class ThreadContext {};
static Thread* g_threads[8]; static int g_extra[8];
struct EnvThread : public Thread { void ini() { sleeper = new ThreadSleeper; id = ThreadId::current(); } };
Thread::Thread() : threadContext(0), joinObject(Gate::stateOpen), flags(0), id(nil), defaultStackSize(0) {}
Thread::~Thread() { sleeper = RefCntPtr<ThreadSleeper>(); }
Thread* Thread::currentPtr() { return g_threads[lsx_self()]; }
Thread& Thread::current() { CHECK(g_threads[lsx_self()] != 0, "thread uses its sleeper after it ended"); return *g_threads[lsx_self()]; }
bool Thread::impSleep(const Timeout& tm, natural& reason) { bool r = sleeper->sleep(tm); if (!r) reason = sleeper->getReason(); return r; }
void Thread::wakeUp(natural reason) throw() { if (sleeper != nil) sleeper->wakeUp(reason); }
RefCntPtr<IThreadSleeper> Thread::getSafeSleepingObject() { return sleeper.get(); }
void Thread::finish() throw() { flags |= flagFinish; wakeUp(naturalNull); }
bool Thread::canFinish() throw() { return (current().flags & flagFinish) != 0; }
bool Thread::isFinishing() const throw() { return (flags & flagFinish) != 0; }
Gate& Thread::getJoinObject() { return joinObject; }
RefCntPtr<IThreadSleeper> getCurThreadSleepingObj() { return Thread::current().getSafeSleepingObject(); }
Thread* getCurrentThread() { return &Thread::current(); }
atomicValue getCurThreadId() { return 100 + lsx_self(); }
void threadHalt() throw() { Thread::sleep(nil); }
bool threadSleep(const Timeout& interval) throw() { return Thread::sleep(interval); }
bool threadCanFinish() throw() { return Thread::canFinish(); }
}
using namespace LightSpeed;
void mtBegin() { lsx_nosched(1); EnvThread* t = new EnvThread; t->ini(); g_threads[lsx_self()] = t; lsx_nosched(0); }
void mtEnd() { lsx_nosched(1); EnvThread* t = static_cast<EnvThread*>(g_threads[lsx_self()]); g_threads[lsx_self()] = 0; delete t; lsx_nosched(0); }
Thread* mtThread(int i) { return g_threads[i]; }
// threads
static MtJob* jobs[8]; static volatile int doneCnt;
static void mtRun(void* a) { MtJob* j = (MtJob*)a; mtBegin(); j->run(); mtEnd(); lsx_nosched(1); doneCnt++; lsx_nosched(0); }
void mtStart(MtJob* a, MtJob* b, MtJob* c) { doneCnt = 0; mtBegin(); MtJob* l[3] = {a, b, c}; for (int i = 0; i < 3; i++) if (l[i]) lsx_thread_create(mtRun, l[i]); }
void mtJoin(int n) { while (doneCnt < n) lsx_block(&doneCnt, 4, n, 1, 0); }
#endif
static long mtNow = 1000000000;
// POSIX semaphores; the count lives in the semaphore object
extern "C" {
pthread_t pthread_self() { return 0x1000 + lsx_self(); }
int sem_init(sem_t* s, int, unsigned v) { *(volatile int*)s = v; return 0; }
int sem_destroy(sem_t* s) { *(volatile int*)s = 0x7badbad; return 0; }
static void semOk(sem_t* s) { CHECK(*(volatile int*)s != 0x7badbad, "semaphore used after it was destroyed"); }
int sem_post(sem_t* s) { lsx_nosched(1); semOk(s); ++*(volatile int*)s; lsx_nosched(0); return 0; }
int sem_getvalue(sem_t* s, int* v) { lsx_nosched(1); semOk(s); *v = *(volatile int*)s; lsx_nosched(0); return 0; }
int sem_trywait(sem_t* s) { lsx_nosched(1); semOk(s); int v = *(volatile int*)s; if (v > 0) *(volatile int*)s = v - 1; lsx_nosched(0); if (v > 0) return 0; errno = EAGAIN; return -1; }
int sem_wait(sem_t* s) { for (;;) { if (sem_trywait(s) == 0) return 0; lsx_block(s, 4, 0, 0, 0); } }
int sem_timedwait(sem_t* s, const struct timespec*) { for (;;) { if (sem_trywait(s) == 0) return 0; if (!lsx_block(s, 4, 0, 0, 1)) { mtNow += 1000000; errno = ETIMEDOUT; return -1; } } }
// time stands still until a timed wait gives up
int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = mtNow; tv->tv_usec = 0; return 0; }
int clock_gettime(clockid_t, struct timespec* ts) { ts->tv_sec = mtNow; ts->tv_nsec = 0; return 0; }
time_t time(time_t* t) { if (t) *t = mtNow; return mtNow; }
}
