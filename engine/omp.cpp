// OpenMP runtime stand-in for the instrumented build: a team of T simulated threads, run one after another (in either order).
// Every iteration is executed by the thread the static schedule assigns it to. When logging is on, accesses of different
// threads to the same byte are recorded, so that conflicts (which would make the result depend on the interleaving) are seen
// whatever the order in which the threads are simulated.
#include "sv.h"
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>
extern "C" char __libc_single_threaded; // reference counts are atomic, as in a multi-threaded program
static int g_crit = 0, g_T = 1, g_rev = 0, g_log = 0, cur = 0, team = 1, depth = 0, g_max = 8; static bool each = false; static uintptr_t frame_lo = 0;
struct Acc { uint64_t r, w, sr, sw; }; static std::unordered_map<uintptr_t, Acc>* log_ = nullptr; static std::string* conflict_ = nullptr; static long g_regions = 0, g_iters = 0;
namespace sv {
void omp(int threads, bool reversed) { g_T = threads; g_rev = reversed; }
void omp_log(bool on) { g_log = on; each = on; if (on) __libc_single_threaded = 0; }
std::string omp_conflict() { return conflict_ ? *conflict_ : ""; }
long omp_regions() { return g_regions; }
}
static bool busy = false; // inside the log itself
static bool active() { return depth == 1 && g_log && log_; }
// sync: inside a critical section, or an atomic access: these do not conflict with each other
static void acc(void* p, long n, bool w, bool sync, const char* what) {
    if (!active()) return; char here; uintptr_t a = (uintptr_t) p; if (a < frame_lo && a > (uintptr_t) &here - 256) return; // the thread's own stack
    uint64_t me = 1ull << (cur & 63), other = ~me; sync = sync || g_crit;
    bool was = busy; busy = true; for (long i = 0; i < n; i++) {
        Acc& x = (*log_)[a + i]; uint64_t c = w ? (x.r | x.w) : x.w; if (!sync) c |= w ? (x.sr | x.sw) : x.sw;
        if ((c & other) && !conflict_) conflict_ = new std::string(what);
        (sync ? (w ? x.sw : x.sr) : (w ? x.w : x.r)) |= me;
    } busy = was;
}
extern "C" {
void svrt_ld(void* p, long n, const char* what) { acc(p, n, false, false, what); }
void svrt_ald(void* p, long n, const char* what) { acc(p, n, false, true, what); }
void svrt_st(void* p, long n, const char* what) { acc(p, n, true, false, what); }
void svrt_ast(void* p, long n, const char* what) { acc(p, n, true, true, what); }
static void forget(void* p, long n) { if (active() && !busy) { busy = true; for (long i = 0; i < n; i++) log_->erase((uintptr_t) p + i); busy = false; } }
void* svrt_new(unsigned long n) { return ::operator new(n); } // replaced below
void* svrt_malloc(unsigned long n) { void* p = malloc(n); forget(p, n); return p; }
void* svrt_calloc(unsigned long m, unsigned long n) { void* p = calloc(m, n); forget(p, m * n); return p; }
void* svrt_aligned_alloc(unsigned long a, unsigned long n) { void* p = aligned_alloc(a, n); forget(p, n); return p; }
int svrt_posix_memalign(void** q, unsigned long a, unsigned long n) { int r = posix_memalign(q, a, n); if (!r) forget(*q, n); return r; }
void svrt_delete(void* p) { ::operator delete(p); }
void svrt_delete2(void* p, unsigned long n) { ::operator delete(p); }

int __kmpc_global_thread_num(void*) { return cur; }
int omp_get_thread_num() { return cur; } int omp_get_num_threads() { return team; } int omp_get_max_threads() { return g_max; } void omp_set_num_threads(int n) { if (n > 0) g_max = n; } void omp_set_dynamic(int) {} int omp_get_num_procs() { return 8; } double omp_get_wtime() { return 0; } int omp_in_parallel() { return depth > 0; }
void __kmpc_push_num_threads(void*, int, int) {} void __kmpc_barrier(void*, int) {} void __kmpc_for_static_fini(void*, int) {} void __kmpc_critical(void*, int, void*) { g_crit++; } void __kmpc_end_critical(void*, int, void*) { g_crit--; }
int __kmpc_single(void*, int) { return cur == 0; } void __kmpc_end_single(void*, int) {} int __kmpc_master(void*, int) { return cur == 0; } void __kmpc_end_master(void*, int) {} void __kmpc_flush(void*) {}
int __kmpc_reduce_nowait(void*, int, int, size_t, void*, void (*)(void*, void*), void*) { g_crit++; return 1; } void __kmpc_end_reduce_nowait(void*, int, void*) { g_crit--; } int __kmpc_reduce(void*, int, int, size_t, void*, void (*)(void*, void*), void*) { g_crit++; return 1; } void __kmpc_end_reduce(void*, int, void*) { g_crit--; }
void __kmpc_serialized_parallel(void*, int) {} void __kmpc_end_serialized_parallel(void*, int) {}
typedef void (*M)(int*, int*, ...);
static __attribute__((noinline)) void call(M f, int n, void** a) {
    int g = cur, b = cur;
    f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31], a[32], a[33], a[34], a[35], a[36], a[37], a[38], a[39]);
}
__attribute__((noinline)) void __kmpc_fork_call(void*, int argc, M f, ...) {
    void* a[40] = {0}; va_list ap; va_start(ap, f); if (argc > 40) abort(); for (int i = 0; i < argc; i++) a[i] = va_arg(ap, void*); va_end(ap);
    int T = depth ? 1 : (each ? 24 : g_T), oc = cur, ot = team; char mark; uintptr_t ofl = frame_lo;
    std::unordered_map<uintptr_t, Acc>* ol = log_; if (!depth) { g_regions++; frame_lo = (uintptr_t) &mark; if (g_log) log_ = new std::unordered_map<uintptr_t, Acc>(); }
    depth++; team = T;
    for (int k = 0; k < T; k++) { if (depth == 1) cur = g_rev ? T - 1 - k : k; call(f, argc, a); }
    depth--; if (!depth && log_ != ol) { delete log_; log_ = ol; }
    frame_lo = ofl; cur = oc; team = ot;
}
#define INIT(N, I) void __kmpc_for_static_init_##N(void*, int, int sched, int* last, I* lo, I* hi, I* st, I incr, I chunk) { \
    long long l = *lo, h = *hi, n = incr > 0 ? (h >= l ? (h - l) / incr + 1 : 0) : (l >= h ? (l - h) / -incr + 1 : 0), T = team, me = cur; if (depth > 1) { me = 0; T = 1; } long long per = T ? (n + T - 1) / T : n; \
    if (sched == 33 && T > 1) abort(); long long b = me * per, e = b + per - 1; if (e >= n) e = n - 1; *last = n > 0 && e == n - 1 && b <= e; *st = n; \
    if (b > e) { *lo = *hi + incr; return; } *lo = l + b * incr; *hi = l + e * incr; }
INIT(4, int) INIT(4u, unsigned) INIT(8, long) INIT(8u, unsigned long)
}
// memory the precompiled C++ library allocates (strings, ...) is as new as that of the instrumented code
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, n); return p; }
void* operator new[](size_t n) { return ::operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
