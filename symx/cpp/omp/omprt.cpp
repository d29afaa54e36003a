// A deterministic OpenMP run time for the instrumented engine: the threads of a parallel region are
// coroutines run one after the other between barriers, in an order chosen by the harness, while every
// memory access of the (compiler-instrumented) code is recorded. Two accesses of different threads to
// the same bytes between two barriers, one of them a write, not protected by the same lock, are a data race.
#include <ucontext.h>
#include <sys/mman.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <unordered_map>
#include <vector>

extern "C" char __start_symxvars, __stop_symxvars;      // the section with the checker's own variables

namespace omprt {
const int MAXT = 8;
const size_t STACK = 64u << 20;
struct Rec { int tid; void *lock; uint8_t r, w; void *pc; };
struct Fiber { ucontext_t c; bool done, waiting; void *lock; int single, disp; };
static char *stacks[MAXT];
static Fiber fib[MAXT];
static ucontext_t sched;
static int cur = -1, nth = 0, order = 0, pending_threads = 0, max_threads = 3;
static bool aborted = false, recording = false;
static int single_taken = 0;
static unsigned long n_regions = 0, n_epochs = 0, n_access = 0, n_races = 0, n_par = 0;
static void *race_pc[2] = {nullptr, nullptr};
static const char *race_kind = "";
static void *(*micro)(int *, int *, ...) = nullptr;
static void *args[32];
using Shadow = std::unordered_map<uintptr_t, std::vector<Rec>>;
static Shadow *shadow = nullptr;
static std::vector<void *> *deferred = nullptr;
static char ATOMIC;
static std::map<std::pair<void *, int>, void *> *tls = nullptr;

static void race(const char *k, void *a, void *b) {
    if (!n_races) { race_kind = k; race_pc[0] = a; race_pc[1] = b; }
    n_races++;
}
static bool own_stack(uintptr_t a) {
    uintptr_t s = (uintptr_t)stacks[cur];
    return a >= s && a < s + STACK;
}
static void access(const void *p, size_t n, bool wr, void *pc, void *lock) {
    if (!recording || cur < 0 || !n) return;
    uintptr_t a = (uintptr_t)p, e = a + n;
    if (own_stack(a)) return;
    if (a >= (uintptr_t)&__start_symxvars && a < (uintptr_t)&__stop_symxvars) return;
    recording = false;                          // the containers below are not part of the engine
    n_access++;
    for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; g++) {
        uint8_t m = 0;
        for (int k = 0; k < 8; k++) if ((g << 3) + k >= a && (g << 3) + k < e) m |= 1u << k;
        auto &v = (*shadow)[g];
        Rec *mine = nullptr;
        for (auto &r : v) {
            if (r.tid == cur) { if (r.lock == lock) mine = &r; continue; }
            if (lock && r.lock == lock) continue;
            if (wr ? ((r.r | r.w) & m) : (r.w & m)) race(wr ? ((r.w & m) ? "write/write" : "read/write") : "write/read", r.pc, pc);
        }
        if (!mine) { v.push_back(Rec{cur, lock, 0, 0, pc}); mine = &v.back(); }
        if (wr) { mine->w |= m; mine->pc = pc; } else { mine->r |= m; if (!mine->w) mine->pc = pc; }
    }
    recording = true;
}
static void forget(void *p, size_t n) {
    if (!recording || !n) return;
    recording = false;
    uintptr_t a = (uintptr_t)p;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) shadow->erase(g);
    recording = true;
}
static void body(int tid) {
    int g = tid, b = tid;
    micro(&g, &b, args[0], args[1], args[2], args[3], args[4], args[5], args[6], args[7], args[8], args[9], args[10], args[11], args[12], args[13], args[14], args[15],
          args[16], args[17], args[18], args[19], args[20], args[21], args[22], args[23], args[24], args[25], args[26], args[27], args[28], args[29], args[30], args[31]);
    fib[tid].done = true;
    swapcontext(&fib[tid].c, &sched);
}
static int nth_in_order(int k) {
    if (order % 2) k = nth - 1 - k;
    return (k + order / 2) % nth;
}
static void barrier() {
    if (cur < 0) return;
    fib[cur].waiting = true;
    int me = cur;
    swapcontext(&fib[me].c, &sched);
}
static void run_region(int n) {
    if (n > 1) n_par++;
    nth = n;
    aborted = false;
    single_taken = 0;
    if (!shadow) { shadow = new Shadow(); deferred = new std::vector<void *>(); }
    for (int t = 0; t < n; t++) {
        if (!stacks[t]) stacks[t] = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        getcontext(&fib[t].c);
        fib[t].c.uc_stack.ss_sp = stacks[t];
        fib[t].c.uc_stack.ss_size = STACK;
        fib[t].c.uc_link = &sched;
        fib[t].done = fib[t].waiting = false;
        fib[t].lock = nullptr;
        fib[t].single = fib[t].disp = 0;
        makecontext(&fib[t].c, (void (*)())body, 1, t);
    }
    bool more = true;
    while (more && !aborted) {
        n_epochs++;
        shadow->clear();
        for (int t = 0; t < n; t++) fib[t].waiting = false;
        for (int k = 0; k < n && !aborted; k++) {
            int t = nth_in_order(k);
            if (fib[t].done) continue;
            cur = t;
            recording = n > 1;
            swapcontext(&sched, &fib[t].c);
            recording = false;
            cur = -1;
        }
        int done = 0;
        for (int t = 0; t < n; t++) done += fib[t].done;
        more = done < n;
        if (more && done && !aborted) race("a thread left the region while others wait at a barrier", nullptr, nullptr);
    }
    shadow->clear();
    for (void *p : *deferred) free(p);
    deferred->clear();
}
}
using namespace omprt;

// ---- control by the harness
extern "C" {
void symx_rt_config(int ord, int maxt) { order = ord; max_threads = maxt; }
void symx_rt_reset() {
    n_regions = n_epochs = n_access = n_races = n_par = 0;
    race_kind = ""; race_pc[0] = race_pc[1] = nullptr;
    if (tls) tls->clear();
}
void symx_rt_stats(unsigned long *o) { o[0] = n_regions; o[1] = n_par; o[2] = n_epochs; o[3] = n_access; o[4] = n_races; o[5] = (unsigned long)race_pc[0]; o[6] = (unsigned long)race_pc[1]; }
const char *symx_rt_race_kind() { return race_kind; }
bool symx_rt_in_fiber() { return cur >= 0; }
void symx_rt_abort_fiber() {
    aborted = true;
    int me = cur;
    swapcontext(&fib[me].c, &sched);
    abort();
}

// ---- OpenMP
void __kmpc_fork_call(void *, int argc, void *(*fn)(int *, int *, ...), ...) {
    n_regions++;
    void *keep[32];
    memcpy(keep, args, sizeof keep);
    auto keepm = micro;
    va_list ap;
    va_start(ap, fn);
    for (int i = 0; i < argc && i < 32; i++) args[i] = va_arg(ap, void *);
    va_end(ap);
    if (argc > 32) abort();
    micro = fn;
    int n = pending_threads > 0 ? pending_threads : max_threads;
    pending_threads = 0;
    if (n > MAXT) n = MAXT;
    if (cur >= 0) {                             // nested region: one thread
        int g = cur, b = 0;
        micro(&g, &b, args[0], args[1], args[2], args[3], args[4], args[5], args[6], args[7], args[8], args[9], args[10], args[11], args[12], args[13], args[14], args[15],
              args[16], args[17], args[18], args[19], args[20], args[21], args[22], args[23], args[24], args[25], args[26], args[27], args[28], args[29], args[30], args[31]);
    } else {
        run_region(n);
        nth = 0;
    }
    memcpy(args, keep, sizeof keep);
    micro = keepm;
}
void __kmpc_push_num_threads(void *, int, int n) { pending_threads = n; }
int __kmpc_global_thread_num(void *) { return cur >= 0 ? cur : 0; }
void __kmpc_serialized_parallel(void *, int) {}
void __kmpc_end_serialized_parallel(void *, int) {}
void __kmpc_barrier(void *, int) { barrier(); }
int __kmpc_cancel_barrier(void *, int) { barrier(); return 0; }
void __kmpc_critical(void *, int, void *lock) { if (cur >= 0) fib[cur].lock = lock; }
void __kmpc_critical_with_hint(void *, int, void *lock, int) { if (cur >= 0) fib[cur].lock = lock; }
void __kmpc_end_critical(void *, int, void *) { if (cur >= 0) fib[cur].lock = nullptr; }
int __kmpc_single(void *, int) {
    if (cur < 0) return 1;
    if (fib[cur].single++ < single_taken) return 0;
    single_taken++;
    return 1;
}
void __kmpc_end_single(void *, int) {}
int __kmpc_master(void *, int) { return cur <= 0; }
void __kmpc_end_master(void *, int) {}
int __kmpc_masked(void *, int, int f) { return (cur < 0 ? 0 : cur) == f; }
void __kmpc_end_masked(void *, int) {}
void __kmpc_flush(void *) {}
void __kmpc_ordered(void *, int) {}
void __kmpc_end_ordered(void *, int) {}
// reductions: the combination is done by each thread under a lock
int __kmpc_reduce(void *, int, int, size_t, void *, void (*)(void *, void *), void *lock) { if (cur >= 0) fib[cur].lock = lock; return 1; }
int __kmpc_reduce_nowait(void *, int, int, size_t, void *, void (*)(void *, void *), void *lock) { if (cur >= 0) fib[cur].lock = lock; return 1; }
void __kmpc_end_reduce(void *, int, void *) { if (cur >= 0) fib[cur].lock = nullptr; barrier(); }
void __kmpc_end_reduce_nowait(void *, int, void *) { if (cur >= 0) fib[cur].lock = nullptr; }
}
template <class T> static void static_init(int sched_, int *last, T *lo, T *hi, T *stride, T incr, T chunk) {
    // contract of the static schedules: 34 = contiguous blocks, 33 = chunks dealt round-robin
    typedef long long L;
    int n = cur >= 0 ? nth : 1, t = cur >= 0 ? cur : 0;
    sched_ &= ~((1 << 29) | (1 << 30));
    if ((L)incr > 0 ? *lo > *hi : *lo < *hi) { *last = 0; *stride = incr; return; }
    L trip = ((L)*hi - (L)*lo) / (L)incr + 1;
    if (sched_ == 33) {
        L span = (L)(chunk < 1 ? 1 : chunk) * (L)incr;
        *stride = (T)(span * n);
        *last = (t == ((trip - 1) / (L)(chunk < 1 ? 1 : chunk)) % n);
        *lo = (T)(*lo + span * t);
        *hi = (T)(*lo + span - incr);
        return;
    }
    L small = trip / n, extra = trip % n;
    T l = (T)((L)*lo + (L)incr * (t * small + (t < extra ? t : extra)));
    L cnt = small + (t < extra ? 1 : 0);
    *last = cnt > 0 && (t * small + (t < extra ? t : extra) + cnt == trip);
    *stride = (T)(trip * (L)incr);
    *hi = (T)((L)l + (cnt - 1) * (L)incr);
    *lo = l;
}
struct Disp { long long lo, hi, st, chunk, next; };
static Disp disp[omprt::MAXT];
extern "C" {
void __kmpc_for_static_init_4(void *, int, int s, int *last, int *lo, int *hi, int *st, int incr, int chunk) { static_init<int>(s, last, lo, hi, st, incr, chunk); }
void __kmpc_for_static_init_4u(void *, int, int s, int *last, unsigned *lo, unsigned *hi, int *st, int incr, int chunk) { static_init<int>(s, last, (int *)lo, (int *)hi, st, incr, chunk); }
void __kmpc_for_static_init_8(void *, int, int s, int *last, long long *lo, long long *hi, long long *st, long long incr, long long chunk) { static_init<long long>(s, last, lo, hi, st, incr, chunk); }
void __kmpc_for_static_init_8u(void *, int, int s, int *last, unsigned long long *lo, unsigned long long *hi, long long *st, long long incr, long long chunk) { static_init<long long>(s, last, (long long *)lo, (long long *)hi, st, incr, chunk); }
void __kmpc_for_static_fini(void *, int) {}
// dynamic schedules: chunk c goes to thread (c + order) mod n
void __kmpc_dispatch_init_8(void *, int, int, long long lo, long long hi, long long st, long long chunk) {
    int t = cur >= 0 ? cur : 0;
    disp[t] = Disp{lo, hi, st, chunk < 1 ? 1 : chunk, 0};
}
int __kmpc_dispatch_next_8(void *, int, int *last, long long *lo, long long *hi, long long *st) {
    int t = cur >= 0 ? cur : 0, n = cur >= 0 ? nth : 1;
    Disp &d = disp[t];
    long long trip = d.st > 0 ? (d.hi < d.lo ? 0 : (d.hi - d.lo) / d.st + 1) : (d.hi > d.lo ? 0 : (d.lo - d.hi) / -d.st + 1);
    for (;; d.next++) {
        long long f = d.next * d.chunk;
        if (f >= trip) return 0;
        if ((d.next + order) % n != t) continue;
        long long l = f + d.chunk < trip ? f + d.chunk : trip;
        *lo = d.lo + f * d.st;
        *hi = d.lo + (l - 1) * d.st;
        *st = d.st;
        *last = l == trip;
        d.next++;
        return 1;
    }
}
void __kmpc_dispatch_init_4(void *a, int b, int c, int lo, int hi, int st, int ch) { __kmpc_dispatch_init_8(a, b, c, lo, hi, st, ch); }
int __kmpc_dispatch_next_4(void *a, int b, int *last, int *lo, int *hi, int *st) {
    long long l, h, s;
    int r = __kmpc_dispatch_next_8(a, b, last, &l, &h, &s);
    if (r) { *lo = (int)l; *hi = (int)h; *st = (int)s; }
    return r;
}
void __kmpc_dispatch_init_8u(void *a, int b, int c, unsigned long long lo, unsigned long long hi, long long st, long long ch) { __kmpc_dispatch_init_8(a, b, c, (long long)lo, (long long)hi, st, ch); }
int __kmpc_dispatch_next_8u(void *a, int b, int *last, unsigned long long *lo, unsigned long long *hi, long long *st) { return __kmpc_dispatch_next_8(a, b, last, (long long *)lo, (long long *)hi, st); }
void __kmpc_dispatch_init_4u(void *a, int b, int c, unsigned lo, unsigned hi, int st, int ch) { __kmpc_dispatch_init_8(a, b, c, lo, hi, st, ch); }
int __kmpc_dispatch_next_4u(void *a, int b, int *last, unsigned *lo, unsigned *hi, int *st) { return __kmpc_dispatch_next_4(a, b, last, (int *)lo, (int *)hi, st); }
void __kmpc_dispatch_fini_4(void *, int) {}
void __kmpc_dispatch_fini_8(void *, int) {}
void __kmpc_dispatch_fini_4u(void *, int) {}
void __kmpc_dispatch_fini_8u(void *, int) {}
void __kmpc_dispatch_deinit(void *, int) {}
int omp_get_max_threads(void) { return max_threads; }
int omp_get_num_procs(void) { return max_threads; }
int omp_get_num_threads(void) { return cur >= 0 ? nth : 1; }
int omp_get_thread_num(void) { return cur >= 0 ? cur : 0; }
void omp_set_num_threads(int n) { max_threads = n; }
int omp_in_parallel(void) { return cur >= 0; }
void omp_set_dynamic(int) {}
double omp_get_wtime(void) { return 0.0; }

// ---- thread-local storage
struct Emutls { size_t size, align; union { uintptr_t i; void *p; } u; void *templ; };
void *__emutls_get_address(Emutls *c) {
    bool rec = recording;
    recording = false;
    if (!tls) tls = new std::map<std::pair<void *, int>, void *>();
    auto k = std::make_pair((void *)c, cur >= 0 ? cur : 0);
    auto it = tls->find(k);
    if (it == tls->end()) {
        void *p = aligned_alloc(64, (c->size + 63) / 64 * 64);
        if (c->templ) memcpy(p, c->templ, c->size); else memset(p, 0, c->size);
        it = tls->emplace(k, p).first;
    }
    recording = rec;
    return it->second;
}

// ---- recorded accesses
#define PC __builtin_return_address(0)
#define LK (cur >= 0 ? fib[cur].lock : nullptr)
#define RW(N) void __tsan_read##N(void *p) { access(p, N, false, PC, LK); } void __tsan_write##N(void *p) { access(p, N, true, PC, LK); } \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false, PC, LK); } void __tsan_unaligned_write##N(void *p) { access(p, N, true, PC, LK); } \
    void __tsan_read_write##N(void *p) { access(p, N, false, PC, LK); access(p, N, true, PC, LK); } void __tsan_unaligned_read_write##N(void *p) { access(p, N, false, PC, LK); access(p, N, true, PC, LK); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC, LK); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC, LK); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC, LK); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC, LK); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(s, n, false, PC, LK); access(d, n, true, PC, LK); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(s, n, false, PC, LK); access(d, n, true, PC, LK); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true, PC, LK); return memset(d, c, n); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(N, T) \
    T __tsan_atomic##N##_load(const T *p, int) { access(p, sizeof(T), false, PC, &ATOMIC); return *p; } \
    void __tsan_atomic##N##_store(T *p, T v, int) { access(p, sizeof(T), true, PC, &ATOMIC); *p = v; } \
    T __tsan_atomic##N##_exchange(T *p, T v, int) { access(p, sizeof(T), true, PC, &ATOMIC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##N##_fetch_add(T *p, T v, int) { access(p, sizeof(T), true, PC, &ATOMIC); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(T *p, T v, int) { access(p, sizeof(T), true, PC, &ATOMIC); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(T *p, T v, int) { access(p, sizeof(T), true, PC, &ATOMIC); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(T *p, T v, int) { access(p, sizeof(T), true, PC, &ATOMIC); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(T *p, T v, int) { access(p, sizeof(T), true, PC, &ATOMIC); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(T *p, T *e, T v, int, int) { access(p, sizeof(T), true, PC, &ATOMIC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(T *p, T *e, T v, int a, int b) { access(p, sizeof(T), true, PC, &ATOMIC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##N##_compare_exchange_val(T *p, T e, T v, int, int) { access(p, sizeof(T), true, PC, &ATOMIC); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}

// ---- memory: a block freed inside a region is not handed out again before its end
void *operator new(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    forget(p, n);
    return p;
}
void *operator new[](size_t n) { return ::operator new(n); }
void operator delete(void *p) noexcept {
    if (p && cur >= 0 && recording) { recording = false; deferred->push_back(p); recording = true; return; }
    free(p);
}
void operator delete[](void *p) noexcept { ::operator delete(p); }
void operator delete(void *p, size_t) noexcept { ::operator delete(p); }
void operator delete[](void *p, size_t) noexcept { ::operator delete(p); }
