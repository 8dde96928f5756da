// A controlled scheduler for two threads. The library's translation units are
// compiled with thread-sanitizer instrumentation, but the __tsan_* entry points
// are the ones below: every load and store of the code under test passes here.
// This file is not instrumented.
#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
// ---- memory: one arena per thread, nothing is reused --------------------------
struct Arena { char* p; char* end; };
Arena g_arena[3];           // 0: set-up code, 1 and 2: the explored threads
__thread int t_id = 0;      // 1, 2 inside an explored thread
void* take(size_t n) {
    Arena& a = g_arena[t_id];
    n = (n + 15) & ~size_t(15);
    if (!a.p) {
        const size_t cap = 256u << 20;
        a.p = static_cast<char*>(mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (a.p == MAP_FAILED) { a.p = nullptr; throw std::bad_alloc(); }
        a.end = a.p + cap;
    }
    if (n > size_t(a.end - a.p)) throw std::bad_alloc();
    void* r = a.p; a.p += n;
    return r;
}
bool g_bump = false;
bool in_arena(void* q) { for (Arena& a : g_arena) if (a.end && q < a.end && q >= a.end - (256u << 20)) return true; return false; }

// ---- shared with the parent ---------------------------------------------------
const size_t MAXCONF = 1 << 15;
struct Shared {
    uint64_t result[2]; char text[2][400]; int done[2];
    long points, switches; int deadlock; long accesses;
    size_t nconf; uintptr_t conf[MAXCONF];
};
Shared* g_sh = nullptr;

// ---- state of one execution (in the forked child) ------------------------------
const size_t TAB = 1 << 19;
uint32_t* g_used = nullptr; size_t g_nused = 0;     // slots in use
uintptr_t* g_key = nullptr; unsigned char* g_bits = nullptr;     // accesses seen
unsigned char* g_isconf = nullptr;                                // parallel to g_key
std::atomic<int> g_turn(0);
bool g_done[3];
bool g_waiting[3];
const std::vector<long>* g_sched = nullptr; size_t g_pos = 0;
long g_points = 0; long g_same = 0;
bool g_live = false;

void futex_wait(std::atomic<int>* a, int v) { syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAIT, v, nullptr, nullptr, 0); }
void futex_wake(std::atomic<int>* a) { syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAKE, 8, nullptr, nullptr, 0); }
void hand_over(int to) { g_same = 0; ++g_sh->switches; g_turn.store(to); futex_wake(&g_turn); }
void await(int me) { for (;;) { const int v = g_turn.load(); if (v == me) return; futex_wait(&g_turn, v); } }
void switch_away() { const int o = 3 - t_id; if (g_done[o]) return; hand_over(o); await(t_id); }
size_t slot_of(uintptr_t k) {
    size_t h = (k ^ (k >> 19)) & (TAB - 1);       // keeps neighbours together
    while (g_key[h] && g_key[h] != k) h = (h + 1) & (TAB - 1);
    return h;
}
void access(void* p, size_t n, bool write) {
    if (!t_id || !g_live) return;
    for (uintptr_t k = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + (n ? n - 1 : 0)) >> 3; k <= e; ++k) {
        const size_t s = slot_of(k);
        if (!g_key[s]) { g_key[s] = k; g_used[g_nused++] = uint32_t(s); if (g_nused > TAB - TAB / 8) _exit(8); }
        g_bits[s] |= (write ? 2 : 1) << (t_id == 2 ? 2 : 0);
        ++g_sh->accesses;
        if (g_isconf[s]) {
            const long here = g_points++;
            if (g_pos < g_sched->size() && (*g_sched)[g_pos] == here) { ++g_pos; switch_away(); }
            else if (++g_same > 20000) { g_same = 0; switch_away(); }       // a spinning thread lets the other one go on
        }
    }
}
void* runner(void* q) {
    auto* s = static_cast<std::pair<int, const Script*>*>(q);
    t_id = s->first;
    await(t_id);
    ThreadResult r; 
    try { r = (*s->second)(); } catch (...) { r.hash = 4242; r.text = "an exception"; }
    const int i = t_id - 1;
    g_sh->result[i] = r.hash; strncpy(g_sh->text[i], r.text.c_str(), 399); g_sh->done[i] = 1;
    const int o = 3 - t_id;
    g_done[t_id] = true;
    t_id = 0;
    if (!g_done[o]) hand_over(o);
    return nullptr;
}
template <class F> int real(const char* name, F& f) { if (!f) f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); return 0; }
// Blocks an explored thread until `ready` holds.
template <class R> void block_until(R ready) {
    int spins = 0;
    while (!ready()) {
        const int o = 3 - t_id;
        if (g_done[o] || (g_waiting[o] && ++spins > 3)) { g_sh->deadlock = 1; _exit(7); }
        g_waiting[t_id] = true; switch_away(); g_waiting[t_id] = false;
    }
}
}
// ---- allocation ----------------------------------------------------------------
void* operator new(size_t n) { if (g_bump) return take(n); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && !in_arena(p)) free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
// ---- synchronisation of the code under test --------------------------------------
extern "C" {
static int guard_state(void* g) { return static_cast<unsigned char*>(g)[1]; }
int __cxa_guard_acquire(void* g) {
    unsigned char* b = static_cast<unsigned char*>(g);
    if (t_id && g_live) access(g, 1, true);
    if (b[0]) return 0;
    if (t_id && g_live) block_until([&] { return !guard_state(g); });
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(void* g) { unsigned char* b = static_cast<unsigned char*>(g); if (t_id && g_live) access(g, 1, true); b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(void* g) { static_cast<unsigned char*>(g)[1] = 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    static int (*lock)(pthread_mutex_t*); static int (*trylock)(pthread_mutex_t*);
    real("pthread_mutex_lock", lock); real("pthread_mutex_trylock", trylock);
    if (!t_id || !g_live) return lock(m);
    access(m, 1, true);
    int rc = 0;
    block_until([&] { rc = trylock(m); return rc != EBUSY; });
    return rc;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    static int (*once)(pthread_once_t*, void (*)(void)); real("pthread_once", once);
    if (!t_id || !g_live) return once(o, f);
    access(o, 4, true);
    if (*o == 2) return 0;
    block_until([&] { return *o != 0x100; });
    if (*o == 0x200 || *o == 2) return 0;
    *o = 0x100; f(); *o = 2;
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    static int (*lock)(pthread_rwlock_t*); static int (*trylock)(pthread_rwlock_t*);
    real("pthread_rwlock_rdlock", lock); real("pthread_rwlock_tryrdlock", trylock);
    if (!t_id || !g_live) return lock(m);
    access(m, 1, true); int rc = 0; block_until([&] { rc = trylock(m); return rc != EBUSY; }); return rc;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    static int (*lock)(pthread_rwlock_t*); static int (*trylock)(pthread_rwlock_t*);
    real("pthread_rwlock_wrlock", lock); real("pthread_rwlock_trywrlock", trylock);
    if (!t_id || !g_live) return lock(m);
    access(m, 1, true); int rc = 0; block_until([&] { rc = trylock(m); return rc != EBUSY; }); return rc;
}
// ---- instrumentation ---------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
#define RW(N) void __tsan_read##N(void* p) { access(p, N, false); } void __tsan_write##N(void* p) { access(p, N, true); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_write##N(void* p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int) { access((void*)p, sizeof(T), false); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { access((void*)p, sizeof(T), true); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access((void*)p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// block copies made by instrumented code (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access(const_cast<void*>(s), n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access(const_cast<void*>(s), n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { if (n) access(d, n, true); return __real_memset(d, v, n); }
}

// ---- exploration -----------------------------------------------------------------------
void use_arenas() { g_bump = true; }
static Shared* shared() {
    if (!g_sh) g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return g_sh;
}
// Executes the two scripts under one schedule in a process of their own.
// only = 1 or 2 runs that thread alone.
Execution execute(const Script& a, const Script& b, int start, const std::vector<long>& sched, std::vector<uintptr_t>& conflicts, int only, const std::function<uint64_t()>& after) {
    Shared* sh = shared();
    sh->done[0] = sh->done[1] = 0; sh->points = sh->switches = 0; sh->deadlock = 0; sh->accesses = 0; sh->nconf = 0;
    sh->text[0][0] = sh->text[1][0] = 0; 
    const pid_t pid = fork();
    if (!pid) {
        alarm(30);
        { const int null = open("/dev/null", O_WRONLY); if (null >= 0) { dup2(null, 1); dup2(null, 2); close(null); } }
        { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(sched_getcpu() < 0 ? 0 : sched_getcpu(), &cs); sched_setaffinity(0, sizeof cs, &cs); }   // the threads take turns anyway
        g_key = static_cast<uintptr_t*>(mmap(nullptr, TAB * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        g_bits = static_cast<unsigned char*>(mmap(nullptr, TAB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        g_isconf = static_cast<unsigned char*>(mmap(nullptr, TAB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        g_used = static_cast<uint32_t*>(mmap(nullptr, TAB * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); g_nused = 0;
        for (uintptr_t k : conflicts) { const size_t s = slot_of(k); if (!g_key[s]) { g_key[s] = k; g_used[g_nused++] = uint32_t(s); } g_isconf[s] = 1; }
        g_sched = &sched; g_pos = 0; g_points = 0; g_turn = 0;
        g_done[1] = only == 2; g_done[2] = only == 1;
        pthread_t t[2]; std::pair<int, const Script*> arg[2] = {{1, &a}, {2, &b}};
        for (int i = 0; i < 2; ++i) if (only == 0 || only == i + 1) pthread_create(&t[i], nullptr, runner, &arg[i]);
        g_live = true;
        hand_over(only ? only : start);
        for (int i = 0; i < 2; ++i) if (only == 0 || only == i + 1) pthread_join(t[i], nullptr);
        g_live = false;
        sh->points = g_points;
        size_t n = 0;
        for (size_t q = 0; q < g_nused && n < MAXCONF; ++q) {
            const size_t s = g_used[q];
            const unsigned char x = g_bits[s];
            if (g_isconf[s] || ((x & 2) && (x & 12)) || ((x & 8) && (x & 3))) sh->conf[n++] = g_key[s];
        }
        sh->nconf = n;
        _exit(after && after() ? 9 : 0);
    }
    int st = 0; waitpid(pid, &st, 0);
    Execution e;
    e.points = sh->points; e.accesses = sh->accesses;
    for (int i = 0; i < 2; ++i) { e.r[i].hash = sh->result[i]; e.r[i].text = sh->text[i]; e.done[i] = sh->done[i]; }
    if (sh->deadlock) e.status = Execution::DEADLOCK;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 9) e.status = Execution::SHARED_CHANGED;
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) e.status = Execution::STUCK;
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) e.status = Execution::CRASH;
    e.grew = false;
    if (e.status == Execution::OK) { const size_t before = conflicts.size(); conflicts.assign(sh->conf, sh->conf + sh->nconf); e.grew = conflicts.size() > before; }
    return e;
}
