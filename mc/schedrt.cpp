// Controlled scheduler + access recorder for batoid's OpenMP regions.
//
// The native code is compiled with -fsanitize=thread, which turns every memory access into a call
// to a __tsan_* hook, and with -fopenmp, which turns every parallel region into GOMP_* calls.  This
// file *replaces* both runtimes: the workers of a parallel region are coroutines of one OS thread,
// every hooked access / synchronisation operation is a possible scheduling point, and the driver
// (checks/c01.py) decides the order of the workers and where they are preempted.  A vector-clock
// happens-before detector over the recorded accesses reports conflicting unordered accesses.
#include <ucontext.h>
#include <sys/mman.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <unordered_map>
#include <vector>
#include <deque>
#include <new>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define HOOK extern "C" __attribute__((visibility("hidden")))

namespace {
const int MAXT = 8;
const size_t STK = 512 * 1024;

struct VC { uint32_t c[MAXT]; };
struct Rec { uint8_t tid, mask, write, atomic; uint32_t clk; uintptr_t pc; };
struct Shadow { std::vector<Rec> recs; };
struct Conflict { uintptr_t addr, pc1, pc2; int t1, t2, w1, w2; };

struct Thread {
    ucontext_t ctx; char* stack = nullptr; int state = 0; // 0 ready 1 running 2 blocked 3 done
    void* waitOn = nullptr; bool barrier = false; int loopGen = 0;
};

bool g_on = false;          // recording enabled by driver
bool g_in = false;          // inside a parallel region (on a worker)
bool g_hook = false;        // re-entrancy guard
int g_n = 1, g_cur = -1, g_done = 0;
void (*g_fn)(void*) = nullptr; void* g_data = nullptr;
Thread g_t[MAXT];
ucontext_t g_main;
int g_order[MAXT] = {0,1,2,3,4,5,6,7};
std::vector<long> g_ppoint; std::vector<int> g_ptarget; size_t g_pi = 0;
long g_step = 0;            // global step counter over hooked accesses inside regions
long g_acc[MAXT]; long g_regions = 0, g_switches = 0, g_sync = 0, g_deadlock = 0, g_maxteam = 0;
std::unordered_map<uintptr_t, Shadow>* g_shadow = nullptr;
std::vector<Conflict>* g_conf = nullptr;
VC g_vc[MAXT];
std::unordered_map<uintptr_t, VC>* g_syncvc = nullptr;
std::unordered_map<uintptr_t, int>* g_lock = nullptr; // address -> owner
std::vector<void*>* g_quar = nullptr;
long g_barrierGen = 0; int g_barrierCount = 0;
long g_lstart, g_lend, g_lincr, g_lchunk, g_lnext; bool g_lguided; bool g_linit; int g_lexit;
long g_divergence = 0;

void init() {
    if (!g_shadow) {
        g_shadow = new std::unordered_map<uintptr_t, Shadow>();
        g_conf = new std::vector<Conflict>();
        g_syncvc = new std::unordered_map<uintptr_t, VC>();
        g_lock = new std::unordered_map<uintptr_t, int>();
        g_quar = new std::vector<void*>();
    }
}

int pick() {               // next runnable in driver-given order
    for (int k = 0; k < MAXT; k++) {
        int i = g_order[k];
        if (i < g_n && g_t[i].state == 0) return i;
    }
    return -1;
}

void switchTo(int i) {
    int me = g_cur;
    g_cur = i; g_t[i].state = 1; g_switches++;
    if (me < 0) swapcontext(&g_main, &g_t[i].ctx);
    else swapcontext(&g_t[me].ctx, &g_t[i].ctx);
}

void yieldBlocked() {      // current thread cannot continue
    int nx = pick();
    if (nx < 0) { g_deadlock++; fprintf(stderr, "schedrt: deadlock\n"); abort(); }
    switchTo(nx);
}

void point() {             // preemption decided by the driver?
    g_step++;
    if (g_pi < g_ppoint.size() && g_ppoint[g_pi] == g_step) {
        int tgt = g_ptarget[g_pi++];
        if (tgt >= g_n || g_t[tgt].state != 0) { g_divergence++; return; }
        g_t[g_cur].state = 0;
        switchTo(tgt);
    }
}

void hbRelease(uintptr_t a) {
    VC& s = (*g_syncvc)[a];
    for (int i = 0; i < MAXT; i++) if (g_vc[g_cur].c[i] > s.c[i]) s.c[i] = g_vc[g_cur].c[i];
    g_vc[g_cur].c[g_cur]++;
}
void hbAcquire(uintptr_t a) {
    auto it = g_syncvc->find(a);
    if (it == g_syncvc->end()) return;
    for (int i = 0; i < MAXT; i++) if (it->second.c[i] > g_vc[g_cur].c[i]) g_vc[g_cur].c[i] = it->second.c[i];
}

void record(uintptr_t a, unsigned size, bool write, bool atomic, uintptr_t pc) {
    // own stack of the coroutine: private unless its address escapes; still recorded
    while (size) {
        uintptr_t g = a >> 3; unsigned off = a & 7; unsigned n = 8 - off; if (n > size) n = size;
        uint8_t mask = (uint8_t)(((1u << n) - 1) << off);
        Shadow& s = (*g_shadow)[g];
        bool have = false;
        for (auto& r : s.recs) {
            if (r.tid == g_cur) {
                if (r.mask == mask && r.write == write && r.atomic == atomic) { r.clk = g_vc[g_cur].c[g_cur]; have = true; }
                continue;
            }
            if (!(r.mask & mask) || !(r.write || write) || (r.atomic && atomic)) continue;
            if (r.clk <= g_vc[g_cur].c[r.tid]) continue; // ordered
            if (g_conf->size() < 64) g_conf->push_back({a, r.pc, pc, r.tid, g_cur, r.write, write});
        }
        if (!have) s.recs.push_back({(uint8_t)g_cur, mask, write, atomic, g_vc[g_cur].c[g_cur], pc});
        a += n; size -= n;
    }
}

inline void access(void* p, unsigned size, bool write, uintptr_t pc) {
    if (!g_in || g_hook || !g_on) return;
    g_hook = true;
    g_acc[g_cur]++;
    g_hook = false;
    point();
    g_hook = true;
    record((uintptr_t)p, size, write, false, pc);
    g_hook = false;
}

void tramp() {
    g_fn(g_data);
    g_t[g_cur].state = 3; g_done++;
    int nx = pick();
    if (nx >= 0) switchTo(nx);
    else {
        if (g_done < g_n) { g_deadlock++; fprintf(stderr, "schedrt: deadlock\n"); abort(); }
        int me = g_cur; g_cur = -1;
        swapcontext(&g_t[me].ctx, &g_main);
    }
}

void runTeam(void (*fn)(void*), void* data, unsigned n) {
    init();
    if (g_in) { // nested: a team of one, on the calling worker
        int on = g_n; int oc = g_cur; (void)on; (void)oc; fn(data); return;
    }
    if (n == 0) n = 2;
    if (n > (unsigned)MAXT) n = MAXT;
    g_n = n; g_fn = fn; g_data = data; g_done = 0; g_cur = -1; g_linit = g_linit; g_lexit = 0;
    g_barrierCount = 0; g_regions++;
    if ((long)n > g_maxteam) g_maxteam = n;
    g_shadow->clear(); g_syncvc->clear(); g_lock->clear();
    memset(g_vc, 0, sizeof(g_vc));
    for (unsigned i = 0; i < n; i++) {
        g_vc[i].c[i] = 1;
        Thread& t = g_t[i];
        if (!t.stack) t.stack = (char*)mmap(0, STK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_STACK, -1, 0);
        getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stack; t.ctx.uc_stack.ss_size = STK; t.ctx.uc_link = 0;
        t.state = 0; t.waitOn = nullptr; t.loopGen = 0;
        makecontext(&t.ctx, (void(*)())tramp, 0);
    }
    g_in = true;
    int first = pick();
    switchTo(first);
    g_in = false;
    for (void* q : *g_quar) free(q);
    g_quar->clear();
}

void lockAcq(uintptr_t a) {
    if (!g_in) return;
    g_sync++; point();
    while (g_lock->count(a) && (*g_lock)[a] >= 0) {
        g_t[g_cur].state = 2; g_t[g_cur].waitOn = (void*)a; yieldBlocked();
    }
    (*g_lock)[a] = g_cur; hbAcquire(a);
}
void lockRel(uintptr_t a) {
    if (!g_in) return;
    (*g_lock)[a] = -1; hbRelease(a);
    for (int i = 0; i < g_n; i++) if (g_t[i].state == 2 && g_t[i].waitOn == (void*)a) { g_t[i].state = 0; g_t[i].waitOn = 0; }
    g_sync++; point();
}
void barrier() {
    if (!g_in) return;
    g_sync++;
    uintptr_t a = 0xba771e7;
    hbRelease(a);
    g_barrierCount++;
    if (g_barrierCount == g_n) {
        g_barrierCount = 0;
        for (int i = 0; i < g_n; i++) if (g_t[i].state == 2 && g_t[i].waitOn == (void*)a) { g_t[i].state = 0; g_t[i].waitOn = 0; }
    } else {
        g_t[g_cur].state = 2; g_t[g_cur].waitOn = (void*)a; yieldBlocked();
    }
    hbAcquire(a);
}
bool loopNext(long* is, long* ie) {
    g_sync++; if (g_in) point();
    long rem = (g_lincr > 0) ? (g_lend - g_lnext + g_lincr - 1) / g_lincr : (g_lnext - g_lend - g_lincr - 1) / (-g_lincr);
    if (rem <= 0) return false;
    long c = g_lchunk > 0 ? g_lchunk : 1;
    if (g_lguided) { long gq = rem / (g_n > 0 ? g_n : 1); if (gq > c) c = gq; }
    if (c > rem) c = rem;
    *is = g_lnext; g_lnext += c * g_lincr; *ie = g_lnext;
    return true;
}
void loopSetup(long s, long e, long i, long c, bool guided) { g_lstart = s; g_lend = e; g_lincr = i; g_lchunk = c; g_lnext = s; g_lguided = guided; g_linit = true; g_lexit = 0; }
bool loopStart(long s, long e, long i, long c, bool guided, long* is, long* ie) {
    if (!g_linit) loopSetup(s, e, i, c, guided);
    return loopNext(is, ie);
}
void loopEnd(bool wait) { if (++g_lexit >= g_n) { g_linit = false; g_lexit = 0; } if (wait) barrier(); }
bool staticNext(long*, long*) { return false; }
}

// ---------------------------------------------------------------- driver interface
EXPORT void mc_begin(const int* order, int norder, const long* pp, const int* pt, int np) {
    init();
    for (int i = 0; i < MAXT; i++) g_order[i] = i;
    for (int i = 0; i < norder && i < MAXT; i++) g_order[i] = order[i];
    g_ppoint.assign(pp, pp + np); g_ptarget.assign(pt, pt + np); g_pi = 0;
    g_step = 0; g_regions = g_switches = g_sync = g_divergence = g_maxteam = 0; memset(g_acc, 0, sizeof(g_acc));
    g_conf->clear(); g_on = true;
}
EXPORT void mc_end(long* out) {
    g_on = false;
    long tot = 0; for (int i = 0; i < MAXT; i++) tot += g_acc[i];
    out[0] = g_step; out[1] = g_regions; out[2] = g_switches; out[3] = (long)g_conf->size(); out[4] = g_sync;
    out[5] = (long)g_pi; out[6] = g_divergence; out[7] = tot; out[8] = g_maxteam;
}
EXPORT int mc_conflict(int i, unsigned long* out) {
    if (i >= (int)g_conf->size()) return 0;
    Conflict& c = (*g_conf)[i];
    out[0] = c.addr; out[1] = c.pc1; out[2] = c.pc2; out[3] = c.t1; out[4] = c.t2; out[5] = c.w1; out[6] = c.w2;
    return 1;
}
static char g_anchor_sym;
EXPORT void* mc_anchor() { return (void*)&mc_begin; }

// ---------------------------------------------------------------- OpenMP
HOOK void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { g_linit = false; runTeam(fn, data, n); }
HOOK int omp_get_num_threads() { return g_in ? g_n : 1; }
HOOK int omp_get_thread_num() { return g_in ? g_cur : 0; }
HOOK int omp_get_max_threads() { return 2; }
HOOK int omp_get_num_procs() { return 2; }
HOOK int omp_in_parallel() { return g_in; }
HOOK void omp_set_num_threads(int) {}
HOOK double omp_get_wtime() { return 0.0; }
static char g_atomicLock, g_critLock;
HOOK void GOMP_atomic_start() { lockAcq((uintptr_t)&g_atomicLock); }
HOOK void GOMP_atomic_end() { lockRel((uintptr_t)&g_atomicLock); }
HOOK void GOMP_critical_start() { lockAcq((uintptr_t)&g_critLock); }
HOOK void GOMP_critical_end() { lockRel((uintptr_t)&g_critLock); }
HOOK void GOMP_critical_name_start(void** p) { lockAcq((uintptr_t)p); }
HOOK void GOMP_critical_name_end(void** p) { lockRel((uintptr_t)p); }
HOOK void GOMP_barrier() { barrier(); }
HOOK bool GOMP_single_start() { return !g_in || g_cur == g_order[0]; }
HOOK void GOMP_ordered_start() {}
HOOK void GOMP_ordered_end() {}
#define LOOP(name, guided) \
 HOOK bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return loopStart(s, e, i, c, guided, is, ie); } \
 HOOK bool GOMP_loop_##name##_next(long* is, long* ie) { return loopNext(is, ie); } \
 HOOK void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { loopSetup(s, e, i, c, guided); runTeam(fn, d, n); }
LOOP(dynamic, false) LOOP(nonmonotonic_dynamic, false) LOOP(guided, true) LOOP(nonmonotonic_guided, true)
HOOK bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { return loopStart(s, e, i, 1, false, is, ie); }
HOOK bool GOMP_loop_runtime_next(long* is, long* ie) { return loopNext(is, ie); }
HOOK bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return loopStart(s, e, i, 1, false, is, ie); }
HOOK bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is, long* ie) { return loopNext(is, ie); }
HOOK void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { loopSetup(s, e, i, 1, false); runTeam(fn, d, n); }
HOOK void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { loopSetup(s, e, i, 1, false); runTeam(fn, d, n); }
HOOK void GOMP_loop_end() { loopEnd(true); }
HOOK void GOMP_loop_end_nowait() { loopEnd(false); }
HOOK void GOMP_sections_end_nowait() {}
// a parallel region whose workers run explicit tasks: executed immediately by the encountering worker
HOOK void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int) {
    if (cpy) { char* b = (char*)malloc(sz + al); char* q = (char*)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(q, data); fn(q); free(b); }
    else fn(data);
}
HOOK void GOMP_taskwait() {}

// ---------------------------------------------------------------- memory accesses
#define PC ((uintptr_t)__builtin_return_address(0))
HOOK void __tsan_init() {}
HOOK void __tsan_func_entry(void*) {}
HOOK void __tsan_func_exit() {}
#define RW(n) HOOK void __tsan_read##n(void* p) { access(p, n, false, PC); } HOOK void __tsan_write##n(void* p) { access(p, n, true, PC); } \
 HOOK void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } HOOK void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
 HOOK void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } HOOK void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
HOOK void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
HOOK void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
HOOK void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
HOOK void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

static inline void atom(void* p, unsigned n, bool w, uintptr_t pc) {
    if (!g_in || g_hook || !g_on) return;
    g_sync++; g_acc[g_cur]++; point();
    g_hook = true; hbAcquire((uintptr_t)p); record((uintptr_t)p, n, w, true, pc); if (w) hbRelease((uintptr_t)p); g_hook = false;
}
#define ATOM(b, T) \
 HOOK T __tsan_atomic##b##_load(const volatile T* p, int) { atom((void*)p, sizeof(T), false, PC); return *p; } \
 HOOK void __tsan_atomic##b##_store(volatile T* p, T v, int) { atom((void*)p, sizeof(T), true, PC); *p = v; } \
 HOOK T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { atom((void*)p, sizeof(T), true, PC); T o = *p; *p = v; return o; } \
 HOOK T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { atom((void*)p, sizeof(T), true, PC); T o = *p; *p = o + v; return o; } \
 HOOK T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { atom((void*)p, sizeof(T), true, PC); T o = *p; *p = o - v; return o; } \
 HOOK T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { atom((void*)p, sizeof(T), true, PC); T o = *p; *p = o & v; return o; } \
 HOOK T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { atom((void*)p, sizeof(T), true, PC); T o = *p; *p = o | v; return o; } \
 HOOK T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { atom((void*)p, sizeof(T), true, PC); T o = *p; *p = o ^ v; return o; } \
 HOOK int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atom((void*)p, sizeof(T), true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 HOOK int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atom((void*)p, sizeof(T), true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 HOOK T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atom((void*)p, sizeof(T), true, PC); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
HOOK void __tsan_atomic_thread_fence(int) {}
HOOK void __tsan_atomic_signal_fence(int) {}

// function-local statics: the guard is a synchronisation object
HOOK int __cxa_guard_acquire(uint64_t* g) {
    if (*(volatile char*)g) { if (g_in) hbAcquire((uintptr_t)g); return 0; }
    return 1;
}
HOOK void __cxa_guard_release(uint64_t* g) { *(volatile char*)g = 1; if (g_in) hbRelease((uintptr_t)g); }
HOOK void __cxa_guard_abort(uint64_t*) {}

// heap blocks freed inside a region are not reused before it ends (no false conflicts)
__attribute__((visibility("hidden"))) void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
__attribute__((visibility("hidden"))) void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
static void del(void* p) { if (p && g_in && !g_hook && g_quar) { g_hook = true; g_quar->push_back(p); g_hook = false; } else free(p); }
__attribute__((visibility("hidden"))) void operator delete(void* p) noexcept { del(p); }
__attribute__((visibility("hidden"))) void operator delete[](void* p) noexcept { del(p); }
__attribute__((visibility("hidden"))) void operator delete(void* p, size_t) noexcept { del(p); }
__attribute__((visibility("hidden"))) void operator delete[](void* p, size_t) noexcept { del(p); }
