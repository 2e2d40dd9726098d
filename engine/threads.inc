// Simulated OpenMP threads (clang's __kmpc ABI), used by the symbolic and by the replay build.
// Every thread of a parallel region is a coroutine.  With -fsanitize=thread
// instrumentation (VERIF_TSAN) each load and store of the code under test calls
// back here: control moves to the next thread after g_quantum accesses, and a
// location written by one thread and accessed by another thread of the region
// without synchronisation in between is recorded as a data race (of any schedule).
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <unordered_map>
#include <vector>
#include <new>
#ifndef VERIF_TSAN
extern "C" void __sanitizer_start_switch_fiber(void**, const void*, size_t);
extern "C" void __sanitizer_finish_switch_fiber(void*, const void**, size_t*);
#else
static void __sanitizer_start_switch_fiber(void**, const void*, size_t) {}
static void __sanitizer_finish_switch_fiber(void*, const void**, size_t*) {}
#endif
namespace {
int g_threads = 1, g_quantum = 0, g_tick = 0, g_phase = 0;
bool g_raced = false;
struct Fiber { ucontext_t uc; char* stack; bool done; };
std::vector<Fiber> fibers;
ucontext_t main_uc;
int cur_thread = 0, n_thr = 1, bar_count = 0, bar_gen = 0, crit_depth = 0, crit_owner = -1;
typedef void (*micro_t)(int*, int*, ...);
micro_t f_fn; void** f_args; int f_argc;
const size_t STK = 1 << 20;
const void* main_stack_bottom; size_t main_stack_size;
struct Dyn { long next, hi, inc; };
std::vector<Dyn> dyn;              // dynamically scheduled loops of this region
std::vector<size_t> dyn_at;        // per thread: loops entered
struct Cell { unsigned char w[4], r[4]; };
std::unordered_map<unsigned long, Cell>* shadow = nullptr;
bool in_shadow = false;

void call_micro(int tid) {
    int gtid = tid, btid = tid;
    void** a = f_args;
    switch (f_argc) {
#define A(i) a[i]
        case 0: f_fn(&gtid, &btid); break;
        case 1: f_fn(&gtid, &btid, A(0)); break;
        case 2: f_fn(&gtid, &btid, A(0), A(1)); break;
        case 3: f_fn(&gtid, &btid, A(0), A(1), A(2)); break;
        case 4: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3)); break;
        case 5: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4)); break;
        case 6: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5)); break;
        case 7: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6)); break;
        case 8: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7)); break;
        case 9: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8)); break;
        case 10: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9)); break;
        case 11: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10)); break;
        case 12: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11)); break;
        case 13: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12)); break;
        case 14: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13)); break;
        case 15: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13), A(14)); break;
        case 16: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13), A(14), A(15)); break;
        case 17: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13), A(14), A(15), A(16)); break;
        case 18: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13), A(14), A(15), A(16), A(17)); break;
        case 19: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13), A(14), A(15), A(16), A(17), A(18)); break;
        case 20: f_fn(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13), A(14), A(15), A(16), A(17), A(18), A(19)); break;
        default: fprintf(stderr, "too many OpenMP arguments\n"); abort();
    }
}
void switch_to(int nxt) {
    int old = cur_thread;
    cur_thread = nxt;
    void* fake = nullptr;
    in_shadow = true;
    __sanitizer_start_switch_fiber(fibers[old].done ? nullptr : &fake, fibers[nxt].stack, STK);
    swapcontext(&fibers[old].uc, &fibers[nxt].uc);
    __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
    in_shadow = false;
}
void yield_now() {
    if (!in_region || n_thr <= 1) return;
    for (int k = 1; k < n_thr; k++) {
        int j = (cur_thread + k) % n_thr;
        if (!fibers[j].done) { switch_to(j); return; }
    }
}
void fiber_main() {
    __sanitizer_finish_switch_fiber(nullptr, &main_stack_bottom, &main_stack_size);
    in_shadow = false;
    call_micro(cur_thread);
    in_shadow = true;
    fibers[cur_thread].done = true;
    for (int k = 1; k < n_thr; k++) {
        int j = (cur_thread + k) % n_thr;
        if (!fibers[j].done) { switch_to(j); break; }
    }
    __sanitizer_start_switch_fiber(nullptr, main_stack_bottom, main_stack_size);
    setcontext(&main_uc);
}
void access(const void* p, size_t n, bool write) {
    if (!in_region || in_shadow || n_thr <= 1) return;
    if (!crit_depth && shadow) {
        in_shadow = true;
        unsigned long a = (unsigned long)p;
        int t = cur_thread & 3;
        while (n) {
            unsigned long g = a >> 3; unsigned off = a & 7, k = 8 - off < n ? 8 - off : n;
            unsigned char m = (unsigned char)(((1u << k) - 1) << off);
            Cell& c = (*shadow)[g];
            for (int o = 0; o < 4; o++) if (o != t && (m & (write ? c.w[o] | c.r[o] : c.w[o]))) {
                if (!g_raced && getenv("VERIF_RACES")) { fprintf(stderr, "race at %p (%s) thread %d with %d\n", (void*)a, write ? "write" : "read", t, o); if (getenv("VERIF_RACES")[0] == 'a') abort(); }
                g_raced = true;
            }
            if (write) c.w[t] |= m; else c.r[t] |= m;
            a += k; n -= k;
        }
        in_shadow = false;
    }
    if (!crit_depth && g_quantum > 0 && ++g_tick >= g_quantum) { g_tick = 0; yield_now(); }
}
void forget(void* p, size_t n) {   // fresh memory carries no history
    if (!in_region || in_shadow || !shadow) return;
    in_shadow = true;
    for (unsigned long g = (unsigned long)p >> 3; g <= ((unsigned long)p + n) >> 3; g++) shadow->erase(g);
    in_shadow = false;
}
template <class T, class U> void static_init(int gtid, int* plast, T* lo, T* up, U* stride, U incr) {
    // static schedule: contiguous blocks
    int nt = in_region ? n_thr : 1;
    if (!in_region) gtid = 0;
    if (incr > 0 ? *up < *lo : *up > *lo) { *plast = 0; return; }
    unsigned long long trip = (unsigned long long)(incr > 0 ? *up - *lo : *lo - *up) / (incr > 0 ? incr : -incr) + 1;
    unsigned long long q = trip / nt, r = trip % nt, beg, cnt;
    if ((unsigned long long)gtid < r) { cnt = q + 1; beg = gtid * (q + 1); }
    else { cnt = q; beg = r * (q + 1) + (gtid - r) * q; }
    T base = *lo;
    *plast = cnt && beg + cnt == trip;
    *stride = (U)trip;
    if (!cnt) { *lo = 1; *up = 0; if (incr < 0) { *lo = 0; *up = 1; } return; }
    *lo = base + (T)(beg * incr);
    *up = *lo + (T)((cnt - 1) * incr);
}
void dyn_init(int gtid, long lo, long up, long inc) {
    if (!in_region) { dyn.clear(); dyn_at.assign(1, 0); gtid = 0; }
    if (dyn.size() == dyn_at[gtid]) dyn.push_back(Dyn{lo, up, inc});
    dyn_at[gtid]++;
}
bool dyn_next(int gtid, long* lo, long* st, int* last) {
    if (!in_region) gtid = 0;
    Dyn& d = dyn[dyn_at[gtid] - 1];
    if (d.inc > 0 ? d.next > d.hi : d.next < d.hi) return false;
    *lo = d.next; *st = d.inc; d.next += d.inc;
    *last = d.inc > 0 ? d.next > d.hi : d.next < d.hi;
    return true;
}
}  // namespace

extern "C" {
void sym_threads(int n) { g_threads = n; }
void sym_quantum(int n) { g_quantum = n; }
void sym_first_switch(int n) { g_phase = n; }
int sym_raced(void) { bool r = g_raced; g_raced = false; return r; }
int __kmpc_global_thread_num(void*) { return in_region ? cur_thread : 0; }
void __kmpc_push_num_threads(void*, int, int n) { (void)n; }
void SIM_FORK(void*, int argc, micro_t fn, ...) {
    void* args[32];
    va_list ap; va_start(ap, fn);
    for (int i = 0; i < argc && i < 32; i++) args[i] = va_arg(ap, void*);
    va_end(ap);
    if (in_region) { // nested: one thread
        micro_t of = f_fn; void** oa = f_args; int oc = f_argc;
        f_fn = fn; f_args = args; f_argc = argc;
        call_micro(cur_thread);
        f_fn = of; f_args = oa; f_argc = oc;
        return;
    }
    f_fn = fn; f_args = args; f_argc = argc;
    n_thr = g_threads < 1 ? 1 : g_threads > 4 ? 4 : g_threads;
    in_shadow = true; in_region = 1; g_tick = -g_phase; bar_count = 0; crit_depth = 0;
    dyn.clear(); dyn_at.assign(n_thr, 0);
    std::unordered_map<unsigned long, Cell> sh;
    shadow = &sh;
    fibers.assign(n_thr, Fiber());
    for (int i = 0; i < n_thr; i++) {
        getcontext(&fibers[i].uc);
        fibers[i].stack = (char*)malloc(STK);
        fibers[i].done = false;
        fibers[i].uc.uc_stack.ss_sp = fibers[i].stack;
        fibers[i].uc.uc_stack.ss_size = STK;
        fibers[i].uc.uc_link = nullptr;
        makecontext(&fibers[i].uc, fiber_main, 0);
    }
    cur_thread = 0;
    void* fake = nullptr;
    __sanitizer_start_switch_fiber(&fake, fibers[0].stack, STK);
    swapcontext(&main_uc, &fibers[0].uc);
    __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
    in_region = 0; cur_thread = 0; shadow = nullptr; in_shadow = false;
    for (auto& f : fibers) free(f.stack);
    SIM_REGION_END();
}
void __kmpc_serialized_parallel(void*, int) {}
void __kmpc_end_serialized_parallel(void*, int) {}
void __kmpc_for_static_init_4(void*, int gtid, int, int* pl, int* lo, int* up, int* st, int inc, int) { static_init<int, int>(gtid, pl, lo, up, st, inc); }
void __kmpc_for_static_init_4u(void*, int gtid, int, int* pl, unsigned* lo, unsigned* up, int* st, int inc, int) { static_init<unsigned, int>(gtid, pl, lo, up, st, inc); }
void __kmpc_for_static_init_8(void*, int gtid, int, int* pl, long* lo, long* up, long* st, long inc, long) { static_init<long, long>(gtid, pl, lo, up, st, inc); }
void __kmpc_for_static_init_8u(void*, int gtid, int, int* pl, unsigned long* lo, unsigned long* up, long* st, long inc, long) { static_init<unsigned long, long>(gtid, pl, lo, up, st, inc); }
void __kmpc_for_static_fini(void*, int) {}
// dynamic/guided schedules: iterations are handed out in program order to whichever thread asks
#define DYN(SFX, T, U)                                                                                                      \
    void __kmpc_dispatch_init_##SFX(void*, int g, int, T lo, T up, U st, U) { dyn_init(g, (long)lo, (long)up, (long)st); }      \
    void __kmpc_dispatch_fini_##SFX(void*, int) {}                                                                            \
    int __kmpc_dispatch_next_##SFX(void*, int g, int* pl, T* lo, T* up, U* st) {                                               \
        long l, s; int last = 0; if (!dyn_next(g, &l, &s, &last)) return 0; *lo = *up = (T)l; *st = (U)s; *pl = last; return 1; }
DYN(4, int, int) DYN(4u, unsigned, int) DYN(8, long, long) DYN(8u, unsigned long, long)
void __kmpc_dispatch_deinit(void*, int) {}
void __kmpc_barrier(void*, int) {
    if (!in_region || n_thr <= 1) return;
    int gen = bar_gen;
    if (++bar_count >= n_thr) { bar_count = 0; bar_gen++; if (shadow) { in_shadow = true; shadow->clear(); in_shadow = false; } return; }
    int guard = 0;
    while (gen == bar_gen && guard++ < 10000000) yield_now();
}
int __kmpc_single(void*, int g) { return g == 0; }
void __kmpc_end_single(void*, int) {}
int __kmpc_master(void*, int g) { return g == 0; }
void __kmpc_end_master(void*, int) {}
int __kmpc_masked(void*, int g, int) { return g == 0; }
void __kmpc_end_masked(void*, int) {}
void __kmpc_critical(void*, int, void*) { crit_depth++; }
void __kmpc_end_critical(void*, int, void*) { crit_depth--; }
int __kmpc_reduce_nowait(void*, int, int, size_t, void*, void (*)(void*, void*), void*) { crit_depth++; return 1; }
void __kmpc_end_reduce_nowait(void*, int, void*) { crit_depth--; }
int __kmpc_reduce(void*, int, int, size_t, void*, void (*)(void*, void*), void*) { crit_depth++; return 1; }
void __kmpc_end_reduce(void*, int, void*) { crit_depth--; __kmpc_barrier(nullptr, 0); }
void __kmpc_ordered(void*, int) {}
void __kmpc_end_ordered(void*, int) {}
int omp_get_thread_num() { return in_region ? cur_thread : 0; }
int omp_get_num_threads() { return in_region ? n_thr : 1; }
int omp_get_max_threads() { return g_threads; }
int omp_get_num_procs() { return g_threads; }
void omp_set_num_threads(int n) { (void)n; }
int omp_in_parallel() { return in_region; }
#ifdef VERIF_TSAN
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
#define TS(N) void __tsan_read##N(void* p) { access(p, N, false); } void __tsan_write##N(void* p) { access(p, N, true); } \
    void __tsan_read_write##N(void* p) { access(p, N, true); } void __tsan_volatile_read##N(void* p) { access(p, N, false); } void __tsan_volatile_write##N(void* p) { access(p, N, true); }
TS(1) TS(2) TS(4) TS(8) TS(16)
#define TU(N) void __tsan_unaligned_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_write##N(void* p) { access(p, N, true); } \
    void __tsan_unaligned_read_write##N(void* p) { access(p, N, true); }
TU(2) TU(4) TU(8) TU(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { access(d, n, true); return memset(d, c, n); }
// atomic operations: synchronised, hence no race; the coroutines make them atomic
#define TA(B, T)                                                                                                  \
    T __tsan_atomic##B##_load(const volatile T* a, int) { return *a; }                                            \
    void __tsan_atomic##B##_store(volatile T* a, T v, int) { *a = v; }                                            \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { T o = *a; *a = v; return o; }                         \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { T o = *a; *a = o + v; return o; }                    \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { T o = *a; *a = o - v; return o; }                    \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { T o = *a; *a = o | v; return o; }                     \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { T o = *a; *a = o & v; return o; }                    \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }   \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { T o = *a; if (o == c) *a = v; return o; }
TA(8, unsigned char) TA(32, unsigned int) TA(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
#endif
}
#ifdef VERIF_TSAN
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 255, n); forget(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
