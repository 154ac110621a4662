// Harness interface of the lsx symbolic executor.  The same harness is executed symbolically
// (functions below are intrinsics of the engine) and natively, to replay a counterexample
// (functions below are implemented by rt/replay.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t lsx_sym(unsigned bits, const char* name);                    // arbitrary value of the given width
uint64_t lsx_range(uint64_t lo, uint64_t hi, const char* name);       // arbitrary value in [lo,hi]
void lsx_bytes(void* p, size_t n, const char* name);                  // n arbitrary bytes
void lsx_assume(int c);
void lsx_assert(int c, const char* label);
void lsx_assert_known(int ok, const char* label, int knownCond, const char* findingId);
void lsx_fail(const char* label);
void lsx_reach(const char* label);                                    // reachability witness
void lsx_stop_path();
uint64_t lsx_concretize(uint64_t v);                                  // fork over the feasible values
uint64_t lsx_ite(int c, uint64_t a, uint64_t b);                      // branch-free select
int lsx_live_heap();                                                  // number of live heap blocks
void lsx_print(const char* name, uint64_t v);
int lsx_thread_create(void (*fn)(void*), void* arg);
int lsx_self();
int lsx_block(volatile void* p, unsigned size, uint64_t val, int mode, int timed); // mode 0: until *p != val, 1: until *p == val
void lsx_yield();
void lsx_sched_point(volatile void* p, int kind);
void lsx_nosched(int on);
void lsx_preempt_bound(int n);
int lsx_is_engine();
}
#define CHECK(c, label) lsx_assert((c) ? 1 : 0, label)
static inline unsigned char lsx_u8(const char* n) { return (unsigned char)lsx_sym(8, n); }
static inline uint32_t lsx_u32(const char* n) { return (uint32_t)lsx_sym(32, n); }
static inline uint64_t lsx_u64(const char* n) { return lsx_sym(64, n); }
static inline bool lsx_bool(const char* n) { return lsx_sym(1, n) != 0; }
