// Simulated threads (flavour mt). Every thread of the program under test is a real thread, but only the one
// holding the baton runs; who gets it is decided by the scheduler below, at every memory access of the
// instrumented code (the compiler's thread-sanitizer call-backs are our yield points), allocation, lock,
// thread start and end. One seed is one interleaving.
#include "env.h"
#ifdef SIM_MT
#include <cerrno>
#include <climits>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace sim {
extern bool active, in_new;
void record(Kind, uint32_t, int64_t); bool decide_replay(Kind, uint32_t, int64_t&); void stop_run(uint32_t); const EnvCfg& env_cfg();
namespace {
constexpr int MAXT = 40; constexpr uintptr_t STK = 0x500000000000ull; constexpr size_t STKSZ = 4 << 20;
enum St { Free, Run, WaitObj, WaitThr, Done };
struct T { int baton; St st; const void* obj; int thr; void* (*fn)(void*); void* arg; void* ret; };
T th[MAXT]; int nth = 1, cur = 0, nrun = 1;
void fwait(int* p) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_RELEASE); }
void fpost(int* p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
void go(int t, bool wait) { if (t == cur) return; int me = cur; bool n = in_new; cur = t; shared->preemptions++; fpost(&th[t].baton); if (wait) { fwait(&th[me].baton); in_new = n; } }
int pick(Rng& r) { int k = (int)r.below((uint64_t)nrun); for (int i = 0; i < nth; ++i) if (th[i].st == Run && k-- == 0) return i; return cur; }
// the running thread cannot go on: someone else has to
void give_up(bool wait) {
    if (nrun == 0) stop_run(5);
    int def = cur; do def = (def + 1) % nth; while (th[def].st != Run);
    uint32_t idx = (uint32_t)shared->count[K_SCHED]++; int t = def; int64_t p;
    if (env_cfg().replay) { if (decide_replay(K_SCHED, idx, p) && p >= 0 && p < nth && th[p].st == Run) t = (int)p; }
    else { Rng r(mix(mix(env_cfg().seed, 1000 + K_SCHED), idx)); t = pick(r); }
    if (t != def) record(K_SCHED, idx, t);
    go(t, wait);
}
void wait_obj(const void* o) { th[cur].st = WaitObj; th[cur].obj = o; --nrun; give_up(true); }
void wake_obj(const void* o) { for (int i = 0; i < nth; ++i) if (th[i].st == WaitObj && th[i].obj == o) { th[i].st = Run; ++nrun; } }
void* entry(void* a) {
    int me = (int)(intptr_t)a; fwait(&th[me].baton);
    th[me].ret = th[me].fn(th[me].arg);
    th[me].st = Done; --nrun;
    for (int i = 0; i < nth; ++i) if (th[i].st == WaitThr && th[i].thr == me) { th[i].st = Run; ++nrun; }
    give_up(false);
    for (;;) syscall(SYS_futex, &th[me].baton, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);      // thread-exit handlers of the real thread would run outside the schedule
}
}
bool threads_running() { return nrun > 1; }
void yield_point() {
    if (nrun < 2 || !active) return;
    uint32_t idx = (uint32_t)shared->count[K_SCHED]++; ++shared->yields; int64_t p;
    if (env_cfg().replay) { if (!decide_replay(K_SCHED, idx, p) || p < 0 || p >= nth || th[p].st != Run || p == cur) return; }
    else { Rng r(mix(mix(env_cfg().seed, 1000 + K_SCHED), idx)); if (r.below(1000000) >= env_cfg().sched_ppm) return; p = pick(r); if (p == cur) return; }
    record(K_SCHED, idx, p); go((int)p, true);
}
}
using namespace sim;
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = (decltype(real))dlsym(RTLD_NEXT, "pthread_create");
    if (!active) { pthread_attr_t a; pthread_attr_init(&a); return real(out, &a, fn, arg); }
    th[0].st = Run; int me = 0; for (int i = 1; i < MAXT && !me; ++i) if (th[i].st == Free) me = i;
    if (!me) return EAGAIN;
    if (me >= nth) nth = me + 1;
    th[me] = T{0, Run, nullptr, 0, fn, arg, nullptr};
    void* st = mmap((void*)(STK + (uintptr_t)me * STKSZ * 2), STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, st, STKSZ); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    active = false; pthread_t t; int rc = real(&t, &a, entry, (void*)(intptr_t)me); active = true;
    if (rc) { th[me].st = Free; return rc; }
    ++nrun; *out = (pthread_t)me; yield_point(); return 0;
}
int pthread_join(pthread_t t, void** ret) {
    if (!active) return EINVAL;
    int k = (int)t; yield_point();
    if (th[k].st != Done) { th[cur].st = WaitThr; th[cur].thr = k; --nrun; give_up(true); }
    if (ret) *ret = th[k].ret;
    return 0;      // the slot is not used again: its real thread sleeps for good
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active) { m->__data.__lock = 1; return 0; }
    yield_point(); while (m->__data.__lock) wait_obj(m);
    m->__data.__lock = cur + 1; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { if (active) yield_point(); if (m->__data.__lock) return EBUSY; m->__data.__lock = active ? cur + 1 : 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { m->__data.__lock = 0; if (active) { wake_obj(m); yield_point(); } return 0; }
int __cxa_guard_acquire(long long* x) { unsigned char* g = (unsigned char*)x; for (;;) { if (g[0]) return 0; if (!g[1]) { g[1] = 1; return 1; } wait_obj(g); } }
void __cxa_guard_release(long long* x) { unsigned char* g = (unsigned char*)x; g[0] = 1; g[1] = 0; if (active) wake_obj(g); }
void __cxa_guard_abort(long long* x) { unsigned char* g = (unsigned char*)x; g[1] = 0; if (active) wake_obj(g); }
#define Y(name) void name(void*) { yield_point(); }
Y(__tsan_read1) Y(__tsan_read2) Y(__tsan_read4) Y(__tsan_read8) Y(__tsan_read16) Y(__tsan_write1) Y(__tsan_write2) Y(__tsan_write4) Y(__tsan_write8) Y(__tsan_write16)
Y(__tsan_unaligned_read2) Y(__tsan_unaligned_read4) Y(__tsan_unaligned_read8) Y(__tsan_unaligned_read16) Y(__tsan_unaligned_write2) Y(__tsan_unaligned_write4) Y(__tsan_unaligned_write8) Y(__tsan_unaligned_write16) Y(__tsan_vptr_read)
Y(__tsan_volatile_read1) Y(__tsan_volatile_read4) Y(__tsan_volatile_read8) Y(__tsan_volatile_write1) Y(__tsan_volatile_write4) Y(__tsan_volatile_write8)
void __tsan_vptr_update(void**, void*) { yield_point(); }
void __tsan_read_range(void*, size_t) { yield_point(); }
void __tsan_write_range(void*, size_t) { yield_point(); }
void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_init() {}
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#define A(N, TY) TY __tsan_atomic##N##_load(const TY* p, int) { yield_point(); return *p; } void __tsan_atomic##N##_store(TY* p, TY v, int) { yield_point(); *p = v; } \
 TY __tsan_atomic##N##_exchange(TY* p, TY v, int) { yield_point(); TY o = *p; *p = v; return o; } TY __tsan_atomic##N##_fetch_add(TY* p, TY v, int) { yield_point(); TY o = *p; *p = (TY)(o + v); return o; } \
 TY __tsan_atomic##N##_fetch_sub(TY* p, TY v, int) { yield_point(); TY o = *p; *p = (TY)(o - v); return o; } TY __tsan_atomic##N##_fetch_or(TY* p, TY v, int) { yield_point(); TY o = *p; *p = (TY)(o | v); return o; } \
 TY __tsan_atomic##N##_fetch_and(TY* p, TY v, int) { yield_point(); TY o = *p; *p = (TY)(o & v); return o; } \
 int __tsan_atomic##N##_compare_exchange_strong(TY* p, TY* e, TY v, int, int) { yield_point(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##N##_compare_exchange_weak(TY* p, TY* e, TY v, int a, int b) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, a, b); }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
}
#else
namespace sim { void yield_point() {} bool threads_running() { return false; } }
#endif
