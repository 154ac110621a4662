#pragma once
#include "lsx.h"
#include <semaphore.h>
#include <errno.h>
#include "lightspeed/mt/thread.h"
#include "lightspeed/mt/threadMinimal.h"
struct MtJob { virtual void run() = 0; };
void mtBegin(); void mtEnd(); LightSpeed::Thread* mtThread(int i);
void mtStart(MtJob* a, MtJob* b, MtJob* c = 0);   // starts threads 1..; main thread gets a Thread object as well
void mtJoin(int n);
// with MTREAL: mtBegin() makes the master thread, mtEnd() waits until every thread has returned to the system
extern int mtFailCreate; int mtEnded();
