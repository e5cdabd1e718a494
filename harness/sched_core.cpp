// Controlled scheduler: exactly one thread of a set runs at a time, and which one goes on is chosen (mc::choose) before every
// acquisition of a lock and every atomic operation. This file is never instrumented: ThreadSanitizer sees the synchronization of
// the code under test and nothing of the scheduler, so its happens-before analysis holds for each explored schedule.
#include "sched_core.hpp"
#include "mc.hpp"
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
#define REAL(r, f, ...) r __real_##f(__VA_ARGS__);
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*) REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*) REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
REAL(int, pthread_mutex_lock, pthread_mutex_t*) REAL(int, pthread_mutex_trylock, pthread_mutex_t*) REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, __cxa_guard_acquire, void*) REAL(void, __cxa_guard_release, void*) REAL(void, __cxa_guard_abort, void*)
}

namespace sched {
int preemption_bound = -1;
bool redundant = false;
namespace {
enum kind { k_none, k_shared, k_excl, k_read, k_write };
const char* kname[] = {"start", "shared lock", "exclusive lock", "atomic read", "atomic write"};
struct op { kind k; const void* r; };
struct thr {
    int st; // 0 - unused, 1 - ready, 2 - finished
    op pend;
    op held[16]; int nheld;
    int go;
};
thr th[MAXT];
int N, main_go, cur;
bool active;
unsigned sleeping; // sleep set
int preemptions;
unsigned long ticks;
__thread int tid = -1;
__thread int nopoint = 0;

void futex_wait(int* a) { while (!__atomic_load_n(a, __ATOMIC_ACQUIRE)) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELAXED); }
void futex_wake(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

bool conflicts(const op& a, const op& b) {
    if (a.k == k_none || b.k == k_none || a.r != b.r) return false;
    return !((a.k == k_shared && b.k == k_shared) || (a.k == k_read && b.k == k_read));
}
// the next transition of a thread begins with its pending operation and may release what it holds
bool dependent(const thr& a, const thr& b) {
    if (conflicts(a.pend, b.pend)) return true;
    for (int i = 0; i < a.nheld; ++i) {
        if (conflicts(a.held[i], b.pend)) return true;
        for (int j = 0; j < b.nheld; ++j) if (conflicts(a.held[i], b.held[j])) return true;
    }
    for (int j = 0; j < b.nheld; ++j) if (conflicts(a.pend, b.held[j])) return true;
    return false;
}
bool can(int t) {
    if (th[t].st != 1) return false;
    auto& p = th[t].pend;
    if (p.k != k_shared && p.k != k_excl) return true;
    for (int u = 0; u < N; ++u) for (int i = 0; i < th[u].nheld; ++i) if (conflicts(th[u].held[i], p)) return false;
    return true;
}
void die(const char* what) {
    char b[1500]; int n = snprintf(b, sizeof b, "%s:", what);
    // resources are numbered by first mention: addresses would differ from run to run
    const void* seen[64]; int ns = 0;
    auto num = [&](const void* r) { for (int i = 0; i < ns; ++i) if (seen[i] == r) return i; if (ns < 64) seen[ns++] = r; return ns - 1; };
    for (int t = 0; t < N; ++t) {
        n += snprintf(b + n, sizeof b - size_t(n), " thread %d %s", t, th[t].st == 2 ? "finished" : "");
        if (th[t].st != 2) n += snprintf(b + n, sizeof b - size_t(n), "before %s #%d", kname[th[t].pend.k], num(th[t].pend.r));
        for (int i = 0; i < th[t].nheld; ++i) n += snprintf(b + n, sizeof b - size_t(n), ", holding %s #%d", kname[th[t].held[i].k], num(th[t].held[i].r));
        n += snprintf(b + n, sizeof b - size_t(n), ";");
        if (n > 1200) break;
    }
    mc::fail(b);
}
// chooses the thread to go on and performs the model part of its pending operation; -1: all have finished
int pick(int me) {
    int en[MAXT], n = 0; bool any = false;
    if (me >= 0 && can(me)) en[n++] = me;
    for (int t = 0; t < N; ++t) { if (th[t].st == 1) any = true; if (t != me && can(t)) en[n++] = t; }
    if (!any) return -1;
    if (!n) die("deadlock");
    bool mine = me >= 0 && en[0] == me;
    int r;
    if (preemption_bound >= 0) {
        if (mine && preemptions >= preemption_bound) n = 1;
        r = en[mc::choose(n)];
        if (mine && r != me) ++preemptions;
    }
    else if (redundant) r = en[0];
    else {
        int c[MAXT], k = 0;
        for (int i = 0; i < n; ++i) if (!(sleeping >> en[i] & 1)) c[k++] = en[i];
        if (!k) { redundant = true; r = en[0]; }
        else {
            int i = mc::choose(k);
            r = c[i];
            unsigned s = sleeping;
            for (int j = 0; j < i; ++j) s |= 1u << c[j];
            unsigned ns = 0;
            for (int t = 0; t < N; ++t) if ((s >> t & 1) && t != r && !dependent(th[t], th[r])) ns |= 1u << t;
            sleeping = ns;
        }
    }
    auto& t = th[r];
    if (t.pend.k == k_shared || t.pend.k == k_excl) {
        if (t.nheld == 16) die("too many locks");
        t.held[t.nheld++] = t.pend;
    }
    return r;
}
bool on() { return active && tid >= 0 && !nopoint; }
// returns when the operation may be performed
void point(kind k, const void* r) {
    auto& t = th[tid];
    t.pend = {k, r};
    ++ticks;
    int n = pick(tid);
    if (n == tid) return;
    cur = n;
    futex_wake(&th[n].go);
    futex_wait(&th[tid].go);
}
void acquire(kind k, const void* r) {
    for (int i = 0; i < th[tid].nheld; ++i) if (th[tid].held[i].r == r) { th[tid].pend = {k, r}; die("a thread locks a mutex which it already holds (undefined, a deadlock with a waiting writer)"); }
    point(k, r);
}
bool try_acquire(kind k, const void* r) {
    point(k == k_shared ? k_read : k_write, r);
    op p{k, r};
    for (int u = 0; u < N; ++u) for (int i = 0; i < th[u].nheld; ++i) if (conflicts(th[u].held[i], p)) return false;
    th[tid].held[th[tid].nheld++] = p;
    return true;
}
void release(const void* r) {
    auto& t = th[tid];
    for (int i = t.nheld; i-- > 0; ) if (t.held[i].r == r) { t.held[i] = t.held[--t.nheld]; return; }
    t.pend = {k_none, r};
    die("a thread unlocks a mutex which it doesn't hold");
}
} // namespace

void core_begin(int n) {
    memset(th, 0, sizeof th);
    N = n; sleeping = 0; preemptions = 0; ticks = 0; redundant = false;
    for (int i = 0; i < n; ++i) th[i].st = 1;
}
void core_run() {
    active = true;
    cur = pick(-1);
    futex_wake(&th[cur].go);
    futex_wait(&main_go);
    active = false;
}
void core_thread_begin(int i) { tid = i; nopoint = 0; futex_wait(&th[i].go); }
void core_thread_end() {
    auto& t = th[tid];
    if (t.nheld) die("a thread finished with locked mutexes");
    t.st = 2; tid = -1;
    int n = pick(-1);
    if (n < 0) futex_wake(&main_go);
    else { cur = n; futex_wake(&th[n].go); }
}
void core_quiet() { ++nopoint; }
void core_pool_wait(int* word) { futex_wait(word); }
void core_pool_wake(int* word) { futex_wake(word); }
unsigned long tick() { return ++ticks; }
int self() { return tid; }
void user_point(const void* r) { if (on()) point(k_write, r); }
void pin(int c) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(c % int(sysconf(_SC_NPROCESSORS_ONLN)), &s); sched_setaffinity(0, sizeof s, &s); }

// ---- memory which all threads use: no synchronization which ThreadSanitizer could see
namespace { long blocks; }
void* mem_alloc(size_t n, size_t a) {
    void* p = nullptr;
    if (a < sizeof(void*)) a = sizeof(void*);
    if (posix_memalign(&p, a, n ? n : 1)) abort();
    ++blocks; memset(p, 0xA5, n);
    return p;
}
void mem_free(void* p, size_t n) { --blocks; free(p); (void)n; }
long mem_blocks() { return blocks; }
namespace { long things; }
void count(long n) { things += n; }
long counted() { return things; }
} // namespace sched

using namespace sched;
extern "C" {
#define LOCKF(f, K, T) int __wrap_##f(T* m) { if (!on()) return __real_##f(m); acquire(K, m); return __real_##f(m); }
#define TRYF(f, K, T) int __wrap_##f(T* m) { if (!on()) return __real_##f(m); if (!try_acquire(K, m)) return EBUSY; return __real_##f(m); }
#define UNLF(f, T) int __wrap_##f(T* m) { int r = __real_##f(m); if (on()) release(m); return r; }
LOCKF(pthread_rwlock_rdlock, k_shared, pthread_rwlock_t)
LOCKF(pthread_rwlock_wrlock, k_excl, pthread_rwlock_t)
TRYF(pthread_rwlock_tryrdlock, k_shared, pthread_rwlock_t)
TRYF(pthread_rwlock_trywrlock, k_excl, pthread_rwlock_t)
UNLF(pthread_rwlock_unlock, pthread_rwlock_t)
LOCKF(pthread_mutex_lock, k_excl, pthread_mutex_t)
TRYF(pthread_mutex_trylock, k_excl, pthread_mutex_t)
UNLF(pthread_mutex_unlock, pthread_mutex_t)
// initialization of function-local statics isn't interrupted
int __wrap___cxa_guard_acquire(void* g) { ++nopoint; int r = __real___cxa_guard_acquire(g); if (!r) --nopoint; return r; }
void __wrap___cxa_guard_release(void* g) { __real___cxa_guard_release(g); --nopoint; }
void __wrap___cxa_guard_abort(void* g) { __real___cxa_guard_abort(g); --nopoint; }
#define AT_LOAD(B, T) T __real___tsan_atomic##B##_load(const volatile T*, int); \
    T __wrap___tsan_atomic##B##_load(const volatile T* a, int o) { if (on()) point(k_read, (const void*)a); return __real___tsan_atomic##B##_load(a, o); }
#define AT_STORE(B, T) void __real___tsan_atomic##B##_store(volatile T*, T, int); \
    void __wrap___tsan_atomic##B##_store(volatile T* a, T v, int o) { if (on()) point(k_write, (const void*)a); __real___tsan_atomic##B##_store(a, v, o); }
#define AT_RMW(B, T, F) T __real___tsan_atomic##B##_##F(volatile T*, T, int); \
    T __wrap___tsan_atomic##B##_##F(volatile T* a, T v, int o) { if (on()) point(k_write, (const void*)a); return __real___tsan_atomic##B##_##F(a, v, o); }
#define AT_CAS(B, T, F) int __real___tsan_atomic##B##_##F(volatile T*, T*, T, int, int); \
    int __wrap___tsan_atomic##B##_##F(volatile T* a, T* c, T v, int o, int f) { if (on()) point(k_write, (const void*)a); return __real___tsan_atomic##B##_##F(a, c, v, o, f); }
#define AT_ALL(B, T) AT_LOAD(B, T) AT_STORE(B, T) AT_RMW(B, T, exchange) AT_RMW(B, T, fetch_add) AT_RMW(B, T, fetch_sub) AT_RMW(B, T, fetch_or) \
    AT_RMW(B, T, fetch_and) AT_RMW(B, T, fetch_xor) AT_CAS(B, T, compare_exchange_strong) AT_CAS(B, T, compare_exchange_weak)
AT_ALL(8, char) AT_ALL(16, short) AT_ALL(32, int) AT_ALL(64, long)
}
