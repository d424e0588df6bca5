#include "mcsched.h"
#include "vm.h"
#include <pthread.h>
#include <sys/syscall.h>
#include <unordered_map>
#include <cstdarg>
#include <dlfcn.h>
#include <linux/futex.h>
namespace mc {
std::function<void(uint64_t)> onState;
namespace {
using VC = std::vector<unsigned>;
void join(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
struct Thread { std::unique_ptr<vm::Coro> co; bool done = false; int blockedOn = 0; void* obj = nullptr; void* mtx = nullptr; bool timed = false, woken = false; VC vc; uint64_t note = 0; };
struct Mutex { int owner = -1, count = 0; VC vc; };
struct World {
    std::vector<Thread> t; int cur = -1; std::map<void*,Mutex> m; std::map<void*,VC> sync; std::string violation; unsigned points = 0, maxPoints = 0; int spurious = 0, preempt = -1; bool truncated = false;
    std::vector<int>* choices = nullptr; std::vector<int>* alts = nullptr; size_t pos = 0;
    struct Cell { int wt = -1; unsigned wc = 0; VC rd; };
    std::unordered_map<uintptr_t,Cell> shadow;
} *W = nullptr;
bool inHook = false;
struct Guard { Guard() { inHook = true; } ~Guard() { inHook = false; } };
void fail(const std::string& s) { if (W->violation.empty()) W->violation = s; }
int choose(int n) {
    if (n <= 1) return 0;
    int c = W->pos < W->choices->size() ? (*W->choices)[W->pos] : 0;
    if (W->pos >= W->choices->size()) W->choices->push_back(0);
    W->alts->push_back(n); ++W->pos;
    return c;
}
void yieldToScheduler() { bool h = inHook; inHook = false; W->t[W->cur].co->yield(); inHook = h; }
void point() { ++W->points; yieldToScheduler(); }
bool active() { return W && W->cur >= 0 && !inHook; }
enum { RUN = 0, MUTEX = 1, COND = 2 };
void tick(int t) { auto& v = W->t[t].vc; if ((int)v.size() <= t) v.resize(t+1); ++v[t]; }
void acquire(void* m) { auto& x = W->m[m]; int me = W->cur; while (x.owner != -1) { if (x.owner == me) { fail("a thread locks a mutex it already holds (deadlock)"); W->t[me].blockedOn = MUTEX; W->t[me].obj = m; yieldToScheduler(); } W->t[me].blockedOn = MUTEX; W->t[me].obj = m; yieldToScheduler(); } W->t[me].blockedOn = RUN; x.owner = me; x.count = 1; join(W->t[me].vc, x.vc); }
void release(void* m) { auto& x = W->m[m]; if (x.owner != W->cur) { fail("a thread unlocks a mutex it does not hold"); return; } if (--x.count) return; x.owner = -1; join(x.vc, W->t[W->cur].vc); tick(W->cur); }
void access(uintptr_t a, size_t n, bool write) {
    if (!active()) return; Guard g; int me = W->cur; auto& vc = W->t[me].vc;
    for (size_t i = 0; i < n; ++i) { auto& c = W->shadow[a + i];
        if (c.wt >= 0 && c.wt != me && c.wc > (c.wt < (int)vc.size() ? vc[c.wt] : 0)) { fail("two threads access the same memory without synchronisation"); return; }
        if (write) { for (size_t k = 0; k < c.rd.size(); ++k) if ((int)k != me && c.rd[k] > (k < vc.size() ? vc[k] : 0)) { fail("two threads access the same memory without synchronisation"); return; } c.wt = me; c.wc = vc[me]; c.rd.clear(); }
        else { if ((int)c.rd.size() <= me) c.rd.resize(me+1); c.rd[me] = vc[me]; } }
}
void fresh(void* p, size_t n) { if (!active()) return; Guard g; for (size_t i = 0; i < n; ++i) W->shadow.erase((uintptr_t)p + i); }
void syncOn(void* a, bool acq, bool rel) { auto& s = W->sync[a]; if (acq) join(W->t[W->cur].vc, s); if (rel) { join(s, W->t[W->cur].vc); tick(W->cur); } }
}
int current() { return W ? W->cur : -1; }
void note(uint64_t v) { if (W && W->cur >= 0) { Guard g; W->t[W->cur].note = v; } }
Result run(const std::vector<std::function<void()>>& threads, std::vector<int>& choices, std::vector<int>& alternatives, int spurious, unsigned maxPoints, int preempt) {
    World w; w.preempt = preempt; W = &w; w.choices = &choices; w.alts = &alternatives; alternatives.clear(); w.spurious = spurious; w.maxPoints = maxPoints; w.t.resize(threads.size());
    for (size_t i = 0; i < threads.size(); ++i) { tick((int)i); w.t[i].co = std::make_unique<vm::Coro>([&w, i, f = threads[i]] {
        inHook = false; try { f(); } catch (const std::exception& e) { fail(std::string("a thread ends with ") + e.what()); } inHook = false; w.t[i].done = true; }); }
    int last = -1;
    while (w.violation.empty()) {
        // enabled threads, the last one first (so that alternative 0 is "no preemption"), then spurious wake-ups
        std::vector<int> en; bool all = true;
        auto ok = [&](int i) { auto& t = w.t[i]; if (t.done) return false; if (t.blockedOn == RUN) return true; if (t.blockedOn == MUTEX) return w.m[t.obj].owner == -1; if (t.blockedOn == COND) return t.woken || t.timed; return false; };
        for (auto& t: w.t) if (!t.done) all = false; if (all) break;
        bool keep = last >= 0 && ok(last); if (keep) en.push_back(last); if (!keep || w.preempt != 0) for (int i = 0; i < (int)w.t.size(); ++i) if (i != last && ok(i)) en.push_back(i);
        size_t normal = en.size(); if (w.spurious > 0 && (!keep || w.preempt != 0)) for (int i = 0; i < (int)w.t.size(); ++i) if (!w.t[i].done && w.t[i].blockedOn == COND && !w.t[i].woken && !w.t[i].timed) en.push_back(i);
        if (!normal) { fail("deadlock: every unfinished thread waits and nothing can wake it"); break; }
        if (w.points > maxPoints) { w.truncated = true; break; }
        if (onState) { uint64_t h = 88172645463325252ull; for (auto& t: w.t) { h = (h ^ t.note ^ (t.blockedOn * 7919) ^ (t.woken ? 104729 : 0) ^ (t.done ? 1299709 : 0)) * 6364136223846793005ull; h ^= h >> 31; } for (auto& [a, m]: w.m) h = (h ^ (m.owner + 2)) * 1099511628211ull; onState(h); }
        int k = choose((int)en.size()); if (k >= (int)en.size()) { w.truncated = true; break; }
        int i = en[k]; if (keep && k > 0 && w.preempt > 0) --w.preempt; if (k >= (int)normal) { --w.spurious; w.t[i].woken = true; }
        last = i; w.cur = i; inHook = false; w.t[i].co->resume(); w.cur = -1; inHook = false;
    }
    // threads that have not ended are abandoned where they are (not unwound)
    Result r; r.violation = w.violation; r.truncated = w.truncated; r.choices = choices; W = nullptr; inHook = false;
    return r;
}
Stats explore(std::function<std::vector<std::function<void()>>()> make, std::function<std::string()> judge, const std::vector<int>& prefix, int spurious, unsigned maxPoints, uint64_t maxSchedules, int preempt) {
    Stats s; std::vector<int> c = prefix, alt;
    while (true) {
        auto th = make(); auto r = run(th, c, alt, spurious, maxPoints, preempt); s.points += alt.size();
        // prefixes beyond the end or with a missing alternative describe no execution (or one counted elsewhere)
        bool valid = true; for (size_t k = 0; k < prefix.size(); ++k) if (k >= alt.size() ? prefix[k] != 0 : prefix[k] >= alt[k]) valid = false;
        if (!valid) { judge(); return s; }
        ++s.schedules; auto v = r.violation.empty() && !r.truncated ? judge() : (judge(), r.violation); if (r.truncated && r.violation.empty()) s.truncated = true;
        if (!v.empty()) { s.violation = v; s.trace = c; return s; }
        c.resize(alt.size());
        while (c.size() > prefix.size() && c.back() + 1 >= alt[c.size()-1]) c.pop_back();
        if (c.size() <= prefix.size()) return s;
        ++c.back();
        if (maxSchedules && s.schedules >= maxSchedules) { s.truncated = true; return s; }
    }
}
} // namespace mc
using namespace mc;
// ---- allocation: fresh memory has no history
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); fresh(p, n); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
extern "C" {
// ---- synchronisation.  Outside model threads the process has one thread, so nothing needs to be done.
int pthread_mutex_lock(pthread_mutex_t* m) { if (!active()) return 0; Guard g; if (W->m[m].owner == W->cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++W->m[m].count; return 0; } point(); acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!active()) return 0; Guard g; point(); if (W->m[m].owner != -1) return EBUSY; acquire(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!active()) return 0; Guard g; release(m); return 0; }
static int waitOn(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    if (!active()) return 0; Guard g; auto& t = W->t[W->cur];
    if (W->m[m].owner != W->cur) fail("a thread waits on a condition without holding the mutex");
    int depth = W->m[m].count; W->m[m].count = 1; release(m); t.blockedOn = COND; t.obj = c; t.timed = timed; t.woken = false; point();
    bool woken = W->t[W->cur].woken; W->t[W->cur].blockedOn = RUN; acquire(m); W->m[m].count = depth; return woken || !timed ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return waitOn(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return waitOn(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec*) { return waitOn(c, m, true); }
static int wake(pthread_cond_t* c, bool all) {
    if (!active()) return 0; Guard g; { // a notifier that holds a mutex cannot be observed by anybody who could be affected: waiting needs the mutex
        bool holds = false; for (auto& [a, x]: W->m) if (x.owner == W->cur) holds = true; if (!holds) point(); }
    
    std::vector<int> w; for (int i = 0; i < (int)W->t.size(); ++i) if (W->t[i].blockedOn == COND && W->t[i].obj == c && !W->t[i].woken) w.push_back(i);
    if (all) { for (int i: w) W->t[i].woken = true; } else if (!w.empty()) { int k = choose((int)w.size()); if (k < (int)w.size()) W->t[w[k]].woken = true; }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return wake(c, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!active()) return 0; Guard g; point(); acquire(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return pthread_rwlock_wrlock(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!active()) return 0; Guard g; release(m); return 0; }
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (auto& x: a) x = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && active()) { Guard g; int op = a[1] & 127; if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { if (*(volatile int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; } point(); return 0; } return 0; }
    static auto real = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall"); return real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int sched_yield() { if (active()) { Guard g; point(); } return 0; }
// ---- memory accesses of the instrumented code
#define RW(n) void __tsan_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_write##n(void* p) { access((uintptr_t)p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true); } \
    void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false); }
void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true); }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uintptr_t)p, 8, true); } void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false); }
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T* p, int o) { if (active()) { Guard g; point(); if (o) syncOn((void*)p, true, false); } return __atomic_load_n(p, 5); } \
    void __tsan_atomic##n##_store(volatile T* p, T v, int o) { if (active()) { Guard g; point(); if (o) syncOn((void*)p, false, true); } __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int o) { if (active()) { Guard g; point(); if (o) syncOn((void*)p, true, true); } return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int o) { if (active()) { Guard g; point(); if (o) syncOn((void*)p, true, true); } return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int o) { if (active()) { Guard g; point(); if (o) syncOn((void*)p, true, true); } return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int o) { if (active()) { Guard g; point(); if (o) syncOn((void*)p, true, true); } return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int o) { if (active()) { Guard g; point(); if (o) syncOn((void*)p, true, true); } return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int o) { if (active()) { Guard g; point(); if (o) syncOn((void*)p, true, true); } return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int) { if (active()) { Guard g; point(); if (o) syncOn((void*)p, true, true); } return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, o, f); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int o, int f) { __tsan_atomic##n##_compare_exchange_strong(p, &e, v, o, f); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (active()) { Guard g; point(); static char all; syncOn(&all, true, true); } }
void __tsan_atomic_signal_fence(int) {}
}
