// Runtime for controlled threads. The code under test and the bodies are compiled
// with -fsanitize=thread and linked into a shared object; the calls which that
// instrumentation makes end here instead of in the ThreadSanitizer library. One
// thread runs at a time; before every synchronising operation (atomic access, mutex,
// guard of a static variable) on memory that is not the thread's own, the explorer
// chooses which thread goes on. Plain accesses are checked for data races with vector
// clocks; as long as there are none, orders of plain accesses make no difference.
// Threads are real (so thread_local works); memory they allocate comes from arenas
// which are reset, and the data of the shared object is restored, for each execution.
#include "rt.h"
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <sched.h>
#include <sys/syscall.h>
#include <memory>
#include <unordered_map>
#include "mc.h"

static const int SPIN = 3;
static const int T = 5;                        // 0 is the main thread
static const size_t ARENA = 8u << 20;
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

typedef unsigned __int128 u128;
struct Cell { uint32_t gen; uint32_t w[T], r[T]; uint8_t wm[T], rm[T]; };
struct VC { uint32_t c[T] = {}; void join(VC const& o) { for (int i = 0; i < T; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Lock { int owner = 0, depth = 0; VC vc; };
struct Thread {
    int tid = 0; uintptr_t lo = 0, hi = 0; VC vc;
    bool done = false, fresh = true; void* waits = nullptr;  // a lock
    // a thread that repeats an atomic operation without effect waits for its memory to change
    void* same = nullptr; size_t n_same = 0; u128 was = 0; int repeats = 0;
    std::atomic<int> go{0};
    pthread_t th; std::vector<uint64_t> log; unsigned long points = 0;
};
static char* arena[T]; static size_t used[T];
static Cell* shadow[T]; static uint32_t gen = 0;
static std::unordered_map<uintptr_t, Cell>*cells, *acells;
static std::unordered_map<uintptr_t, VC>* syncs;
static std::unordered_map<uintptr_t, Lock>* locks;
static Thread* threads[T]; static int nthreads;
static std::atomic<int> main_go;
static Body const* body; static int preempt_left;
static bool exploring, failed, cut;            // cut: this execution belongs to another process
static std::string message;
static unsigned long switches_, points_, accesses_, shared_;
static thread_local Thread* me = nullptr;
static thread_local int in_rt = 1;             // callbacks are ignored unless a body runs
static int alloc_for = -1;                     // main: the arena allocations come from
struct Rt { Rt() { in_rt++; } ~Rt() { in_rt--; } };

// ---- memory -------------------------------------------------------------------
static int arena_of(const void* p) {
    for (int i = 0; i < T; i++) if (arena[i] && p >= arena[i] && p < arena[i] + ARENA) return i;
    return -1;
}
static void* take(int a, size_t n, size_t align) {
    if (align < 16) align = 16;
    size_t at = (used[a] + 16 + align - 1) / align * align;
    if (at + n > ARENA) { write(2, "arena is full\n", 14); _exit(3); }
    used[a] = at + n;
    *(size_t*)(arena[a] + at - 8) = n;
    return arena[a] + at;
}
static int mine() { return in_rt ? -1 : me ? me->tid : alloc_for; }
extern "C" void* malloc(size_t n) { int a = mine(); return a < 0 ? __libc_malloc(n) : take(a, n, 16); }
extern "C" void free(void* p) { if (p && arena_of(p) < 0) __libc_free(p); }
extern "C" void* calloc(size_t k, size_t n) { int a = mine(); if (a < 0) return __libc_calloc(k, n); void* p = take(a, k * n, 16); memset(p, 0, k * n); return p; }
extern "C" void* realloc(void* p, size_t n) {
    int a = mine();
    if (a < 0 && (!p || arena_of(p) < 0)) return __libc_realloc(p, n);
    void* q = a < 0 ? __libc_malloc(n) : take(a, n, 16);
    if (p) { size_t old = arena_of(p) < 0 ? malloc_usable_size(p) : ((size_t*)p)[-1]; memcpy(q, p, std::min(old, n)); free(p); }
    return q;
}
extern "C" void* memalign(size_t al, size_t n) { int a = mine(); return a < 0 ? __libc_memalign(al, n) : take(a, n, al); }
extern "C" void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
extern "C" int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return 0; }

// the writable data of the shared object with the code under test
struct Seg { char* at; size_t n; std::unique_ptr<char[]> copy; };
static std::vector<Seg>* segs;
static int on_phdr(dl_phdr_info* i, size_t, void*) {
    if (!strstr(i->dlpi_name, "libbody-")) return 0;
    uintptr_t ro_lo = 0, ro_hi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
        // the pages that the loader has made read-only, which excludes the last incomplete one
        ro_lo = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr) & ~4095ul; ro_hi = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz) & ~4095ul;
    }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto& h = i->dlpi_phdr[k];
        if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
        uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
        if (ro_hi > lo && ro_lo <= lo) lo = ro_hi;
        if (hi <= lo) continue;
        Seg s{(char*)lo, hi - lo, nullptr}; s.copy.reset(new char[s.n]); memcpy(s.copy.get(), s.at, s.n);
        segs->push_back(std::move(s));
    }
    return 0;
}
static void restore() {
    for (auto& s : *segs) memcpy(s.at, s.copy.get(), s.n);
    for (int i = 0; i < T; i++) used[i] = 0;
    gen++; cells->clear(); acells->clear(); syncs->clear(); locks->clear();
}

// ---- scheduling ---------------------------------------------------------------
static void wait_on(std::atomic<int>& g) {
    while (!g.load(std::memory_order_acquire)) syscall(SYS_futex, &g, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    g.store(0, std::memory_order_relaxed);
}
static void wake(std::atomic<int>& g) { g.store(1, std::memory_order_release); syscall(SYS_futex, &g, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void violation(std::string const& m) { if (!failed && !cut) { failed = true; message = m; } }
static bool enabled(Thread* t) {
    if (t->done) return false;
    if (t->waits) { auto& l = (*locks)[(uintptr_t)t->waits]; if (l.owner && l.owner != t->tid) return false; }
    return true;
}
static u128 value(void* p, size_t n) { u128 v = 0; memcpy(&v, p, n); return v; }
static bool spins(Thread* t) { return t->repeats >= SPIN && value(t->same, t->n_same) == t->was; }
static int pick(std::vector<Thread*> const& c) {
    if (c.size() < 2 || failed || cut || !exploring) return 0;
    try { return mc::choose(c.size()); }
    catch (mc::Prune&) { cut = true; }
    catch (mc::Violation& v) { violation(v.msg); }
    return 0;
}
static void go_to(Thread* t) {
    if (t == me) return;
    switches_++;
    wake(t->go);
    if (me && !me->done) wait_on(me->go);
}
// The calling thread gives up the processor: voluntarily (it may go on), because it
// waits for a lock, or because it has ended.
static void point(bool forced = false) {
    points_++; mc::step(); me->points++;
    // up to its first synchronising operation a thread does nothing that others can see
    if (me->fresh && !forced) { me->fresh = false; return; }
    me->fresh = false;
    std::vector<Thread*> c;
    bool self = enabled(me);
    if (self && !forced && !spins(me)) c.push_back(me);
    for (int k = 1; k <= nthreads; k++) { Thread* t = threads[(me->tid - 1 + k) % nthreads + 1]; if (t != me && enabled(t) && !spins(t)) c.push_back(t); }
    // all that could go on spin: one after the other, in turn
    if (c.empty()) for (int k = 1; k <= nthreads && c.empty(); k++) { Thread* t = threads[(me->tid - 1 + k) % nthreads + 1]; if (enabled(t) && (t != me || self)) c.push_back(t); }
    if (c.empty()) {
        if (me->done) {
            for (int i = 1; i <= nthreads; i++) if (!threads[i]->done) { fprintf(stderr, "%sdeadlock: thread %d waits for a lock for ever\n", failed ? (message + "; ").c_str() : "", i); raise(SIGABRT); }
            wake(main_go); return;
        }
        fprintf(stderr, "deadlock\n"); raise(SIGABRT);
    }
    bool preemptive = c[0] == me && self && !spins(me);
    if (preemptive && preempt_left == 0) return;
    int k = pick(c);
    if (preemptive && k && preempt_left > 0) preempt_left--;
    uint64_t h = 7; for (int i = 1; i <= nthreads; i++) h = mc::mix(h, (threads[i]->vc.c[i] << 8) + threads[i]->done);
    mc::state(mc::mix(mc::mix(h, c[k]->tid), mc::hash_str(mc::S().scen)));
    if (mc::tracing()) mc::trace("thread %d goes on", c[k]->tid);
    go_to(c[k]);
}
// ---- accesses -----------------------------------------------------------------
static std::string where(uintptr_t a) {
    Dl_info d; char b[300];
    int o = arena_of((void*)a);
    if (o >= 0) snprintf(b, sizeof b, "memory of thread %d", o);
    else if (dladdr((void*)a, &d) && d.dli_sname) snprintf(b, sizeof b, "%s+%zu", d.dli_sname, (size_t)(a - (uintptr_t)d.dli_saddr));
    else snprintf(b, sizeof b, "static or heap memory");
    return b;
}
static Cell& cell(uintptr_t a) {
    int o = arena_of((void*)a);
    if (o >= 0) { Cell& c = shadow[o][(a - (uintptr_t)arena[o]) >> 3]; if (c.gen != gen) { memset(&c, 0, sizeof c); c.gen = gen; } return c; }
    shared_++;
    return (*cells)[a >> 3];
}
static bool races(Cell& c, uint8_t mask, bool write, uintptr_t a, const char* how) {
    int t = me->tid;
    for (int i = 0; i < T; i++) {
        if (i == t) continue;
        bool rw = (c.wm[i] & mask) && c.w[i] > me->vc.c[i];
        bool wr = write && (c.rm[i] & mask) && c.r[i] > me->vc.c[i];
        if (rw || wr) { violation("data race: thread " + std::to_string(i) + (rw ? " writes " : " reads ") + where(a) + " and thread " + std::to_string(t) + (write ? " writes it" : " reads it") + how); return true; }
    }
    return false;
}
// Atomic accesses do not race with each other, but with plain ones: they are recorded apart.
static void granule(uintptr_t a, uint8_t mask, bool write, bool atomic) {
    Cell& c = cell(a);
    if (races(c, mask, write, a, ", unordered")) return;
    Cell* k = &c;
    if (atomic) k = &(*acells)[a >> 3];
    else if (!acells->empty()) { auto i = acells->find(a >> 3); if (i != acells->end() && races(i->second, mask, write, a, ", unordered, one of them atomically")) return; }
    int t = me->tid; uint32_t e = me->vc.c[t];
    uint32_t& when = write ? k->w[t] : k->r[t]; uint8_t& m = write ? k->wm[t] : k->rm[t];
    m = when == e ? m | mask : mask; when = e;
}
static void access(void* p, size_t n, bool write) {
    if (in_rt || !me) return;
    uintptr_t a = (uintptr_t)p;
    if (a >= me->lo && a < me->hi) return;
    Rt r; accesses_++;
    while (n) {
        size_t off = a & 7, k = std::min(n, 8 - off);
        granule(a - off, (uint8_t)(((1u << k) - 1) << off), write, false);
        a += k; n -= k;
    }
}
static void atomic_access(void* p, size_t n, bool write) {
    uintptr_t a = (uintptr_t)p;
    granule(a & ~7ul, (uint8_t)(((1u << n) - 1) << (a & 7)), write, true);
}
static bool own(void* p) { uintptr_t a = (uintptr_t)p; return (a >= me->lo && a < me->hi) || arena_of(p) == me->tid; }
enum { ACQ = 1, REL = 2 };
static int order_of(int mo) { return mo == 0 ? 0 : mo <= 2 ? ACQ : mo == 3 ? REL : ACQ | REL; }
// Runs op on memory p as one indivisible step of the calling thread.
template <class F> static auto atomically(void* p, size_t n, bool write, int mo, F op) {
    if (in_rt || !me || own(p)) return op();
    Rt r;
    point();
    u128 before = value(p, n);
    atomic_access(p, n, write);
    auto& s = (*syncs)[(uintptr_t)p];
    int o = order_of(mo);
    if (o & ACQ) me->vc.join(s);
    auto v = op();
    if (value(p, n) != before || me->same != p || me->was != before) me->repeats = 0;
    else me->repeats++;
    me->same = p; me->n_same = n; me->was = value(p, n);
    if (write && (o & REL)) { s.join(me->vc); me->vc.c[me->tid]++; }
    else me->vc.c[me->tid]++;
    return v;
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false); } \
    void __tsan_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
    void __tsan_read_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
#define AT(n, type) \
    type __tsan_atomic##n##_load(volatile type* p, int mo) { return atomically((void*)p, n / 8, false, mo, [&] { return __atomic_load_n(p, 5); }); } \
    void __tsan_atomic##n##_store(volatile type* p, type v, int mo) { atomically((void*)p, n / 8, true, mo, [&] { __atomic_store_n(p, v, 5); return 0; }); } \
    type __tsan_atomic##n##_exchange(volatile type* p, type v, int mo) { return atomically((void*)p, n / 8, true, mo, [&] { return __atomic_exchange_n(p, v, 5); }); } \
    type __tsan_atomic##n##_fetch_add(volatile type* p, type v, int mo) { return atomically((void*)p, n / 8, true, mo, [&] { return __atomic_fetch_add(p, v, 5); }); } \
    type __tsan_atomic##n##_fetch_sub(volatile type* p, type v, int mo) { return atomically((void*)p, n / 8, true, mo, [&] { return __atomic_fetch_sub(p, v, 5); }); } \
    type __tsan_atomic##n##_fetch_and(volatile type* p, type v, int mo) { return atomically((void*)p, n / 8, true, mo, [&] { return __atomic_fetch_and(p, v, 5); }); } \
    type __tsan_atomic##n##_fetch_or(volatile type* p, type v, int mo) { return atomically((void*)p, n / 8, true, mo, [&] { return __atomic_fetch_or(p, v, 5); }); } \
    type __tsan_atomic##n##_fetch_xor(volatile type* p, type v, int mo) { return atomically((void*)p, n / 8, true, mo, [&] { return __atomic_fetch_xor(p, v, 5); }); } \
    type __tsan_atomic##n##_fetch_nand(volatile type* p, type v, int mo) { return atomically((void*)p, n / 8, true, mo, [&] { return __atomic_fetch_nand(p, v, 5); }); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile type* p, type* c, type v, int mo, int) { return atomically((void*)p, n / 8, true, mo, [&] { return (int)__atomic_compare_exchange_n(p, c, v, false, 5, 5); }); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile type* p, type* c, type v, int mo, int) { return atomically((void*)p, n / 8, true, mo, [&] { return (int)__atomic_compare_exchange_n(p, c, v, false, 5, 5); }); } \
    type __tsan_atomic##n##_compare_exchange_val(volatile type* p, type c, type v, int mo, int) { return atomically((void*)p, n / 8, true, mo, [&] { type e = c; __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- locks --------------------------------------------------------------------
static void lock_it(void* p, bool recursive) {
    Rt r;
    point();
    auto* l = &(*locks)[(uintptr_t)p];
    if (l->owner == me->tid && !recursive) violation("deadlock: a thread locks a mutex that it has locked");
    if (l->owner && l->owner != me->tid) { me->waits = p; point(true); me->waits = nullptr; l = &(*locks)[(uintptr_t)p]; }
    l->owner = me->tid; l->depth++;
    me->vc.join(l->vc);
}
static void unlock_it(void* p) {
    Rt r;
    auto& l = (*locks)[(uintptr_t)p];
    if (l.depth && --l.depth == 0) { l.owner = 0; l.vc.join(me->vc); me->vc.c[me->tid]++; }
    point();
}
static bool try_it(void* p) {
    Rt r; point();
    auto& l = (*locks)[(uintptr_t)p];
    if (l.owner) return false;
    l.owner = me->tid; l.depth++; me->vc.join(l.vc); return true;
}
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
int pthread_mutex_lock(pthread_mutex_t* m) { if (in_rt || !me) { REAL(pthread_mutex_lock); return real(m); } lock_it(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (in_rt || !me) { REAL(pthread_mutex_unlock); return real(m); } unlock_it(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (in_rt || !me) { REAL(pthread_mutex_trylock); return real(m); } return try_it(m) ? 0 : EBUSY; }
// readers exclude each other here too: fewer interleavings, the same results
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (in_rt || !me) { REAL(pthread_rwlock_rdlock); return real(m); } lock_it(m, true); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (in_rt || !me) { REAL(pthread_rwlock_wrlock); return real(m); } lock_it(m, false); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (in_rt || !me) { REAL(pthread_rwlock_unlock); return real(m); } unlock_it(m); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (in_rt || !me) { REAL(pthread_once); return real(o, f); }
    lock_it(o, true); if (!*o) { f(); *o = 2; } unlock_it(o); return 0;
}
int sched_yield() { if (!in_rt && me) { Rt r; point(true); } return 0; }
int __cxa_guard_acquire(long long* g) {
    char* done = (char*)g;
    if (in_rt || !me) return !*done;
    lock_it(g, false);
    if (*done) { unlock_it(g); return 0; }
    return 1;
}
void __cxa_guard_release(long long* g) { *(char*)g = 1; if (!in_rt && me) { { Rt r; auto& s = (*syncs)[(uintptr_t)g]; s.join(me->vc); } unlock_it(g); } }
void __cxa_guard_abort(long long* g) { if (!in_rt && me) unlock_it(g); }

// ---- what a body calls ----------------------------------------------------------
void rt_log(uint64_t v) { Rt r; threads[me ? me->tid : 0]->log.push_back(v); }
void rt_fail(const char* fmt, ...) {
    Rt r; char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    violation(b);
}
void rt_alloc_for(int tid) { alloc_for = tid; }
}
// ---- one execution ----------------------------------------------------------------
static void* start(void* p) {
    me = (Thread*)p;
    pthread_attr_t at; pthread_getattr_np(pthread_self(), &at);
    void* lo; size_t n; pthread_attr_getstack(&at, &lo, &n); pthread_attr_destroy(&at);
    me->lo = (uintptr_t)lo; me->hi = me->lo + n;
    wait_on(me->go);
    in_rt = 0;
    try { body->run(me->tid); }
    catch (std::exception& e) { in_rt = 1; violation(std::string("unexpected exception in a thread: ") + e.what()); }
    in_rt = 1;
    me->done = true;
    point(true);
    return nullptr;
}
template <class F> static void as_body(int a, F f) { alloc_for = a; in_rt = 0; try { f(); } catch (std::exception& e) { in_rt = 1; violation(std::string("unexpected exception: ") + e.what()); } in_rt = 1; alloc_for = -1; }
// in a thread of its own, for the sake of variables that are local to a thread
static void execute_in(int only);
static void execute(int only) {
    static int arg; arg = only;
    pthread_t th;
    pthread_create(&th, nullptr, [](void*) -> void* { execute_in(arg); return nullptr; }, nullptr);
    pthread_join(th, nullptr);
}
// `only`: run just that thread; -1: run all, one after the other
static int bound = -1;
static void execute_in(int only) {
    restore();
    failed = cut = false; exploring = only == 0; preempt_left = only == 0 ? bound : 0;
    nthreads = body->threads;
    for (int i = 0; i <= nthreads; i++) { delete threads[i]; threads[i] = new Thread; threads[i]->tid = i; threads[i]->vc.c[i] = 1; }
    as_body(0, [] { body->setup(); });
    for (int i = 1; i <= nthreads; i++) {
        if (only > 0 && i != only) { threads[i]->done = true; continue; }
        pthread_create(&threads[i]->th, nullptr, start, threads[i]);
    }
    std::vector<Thread*> c;
    for (int i = 1; i <= nthreads; i++) if (!threads[i]->done) c.push_back(threads[i]);
    int first = 0;
    first = pick(c);
    wake(c[first]->go);
    wait_on(main_go);
    for (int i = 1; i <= nthreads; i++) if (only <= 0 || i == only) pthread_join(threads[i]->th, nullptr);
    if (!failed && !cut && !only) as_body(0, [] { body->finish(); });
}
static std::map<const Body*, std::vector<std::vector<uint64_t>>>* alone;
static std::map<const Body*, int>* bounds;
static void scenario(Body const* b) {
    body = b;
    if (b->alone && !alone->count(b)) {
        std::vector<std::vector<uint64_t>> v(T);
        for (int i = 1; i <= b->threads; i++) {
            execute(i);
            if (failed) mc::fail("thread %d alone: %s", i, message.c_str());
            v[i] = threads[i]->log;
        }
        (*alone)[b] = v;
    }
    if (!bounds->count(b)) {
        execute(-1);
        if (failed) mc::fail("threads one after the other: %s", message.c_str());
        // the number of interleavings, and of those with up to p preemptions
        double all = 1, n = 0, limit = b->limit[mc::S().thorough];
        for (int i = 1; i <= b->threads; i++) for (unsigned long k = 1; k < threads[i]->points; k++) all *= ++n / k;
        int p = -1;
        if (all > limit) {
            double sum = 1, term = 1, f = 1;
            for (int i = 2; i <= b->threads; i++) f *= i;
            for (p = 0; p < 20; p++) { term *= (n - p) / (p + 1) * (b->threads - 1); sum += term; if (sum * f > limit) break; }
            if (p < 1) p = 1;
        }
        (*bounds)[b] = p;
    }
    bound = (*bounds)[b];
    execute(0);
    if (cut) throw mc::Prune();
    if (failed) mc::fail("%s", message.c_str());
    mc::compared();
    mc::count(bound < 0 ? "executions where all interleavings were explored" : ("executions with up to " + std::to_string(bound) + " preemptions").c_str());
    mc::count("accesses checked for races", accesses_); mc::count("of these to static data", shared_); accesses_ = shared_ = 0;
    mc::count("scheduling points", points_); mc::count("switches", switches_); points_ = switches_ = 0;
    if (!b->alone) return;
    auto& v = (*alone)[b];
    for (int i = 1; i <= b->threads; i++) {
        auto &x = v[i], &y = threads[i]->log;
        mc::compared();
        size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) k++;
        if (k < x.size() || k < y.size()) mc::fail("thread %d: entry %zu of its log is %llx, alone %llx (%zu entries, alone %zu)", i, k,
            k < y.size() ? (unsigned long long)y[k] : 0ull, k < x.size() ? (unsigned long long)x[k] : 0ull, y.size(), x.size());
        mc::count("log entries compared", x.size());
    }
}
#ifndef PROP
#error PROP
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
int main(int argc, char** argv) {
    segs = new std::vector<Seg>; cells = new std::unordered_map<uintptr_t, Cell>; acells = new std::unordered_map<uintptr_t, Cell>;
    syncs = new std::unordered_map<uintptr_t, VC>; locks = new std::unordered_map<uintptr_t, Lock>;
    bounds = new std::map<const Body*, int>;
    alone = new std::map<const Body*, std::vector<std::vector<uint64_t>>>;
    for (int i = 0; i < T; i++) {
        arena[i] = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        shadow[i] = (Cell*)mmap(nullptr, ARENA / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena[i] == MAP_FAILED || shadow[i] == MAP_FAILED) return 3;
    }
    int n; Body const* b = rt_bodies(&n);
    dl_iterate_phdr(on_phdr, nullptr);
    if (segs->empty()) mc::internal("the shared object with the code under test is not there");
    return mc::main_(argc, argv, STR(PROP), [=](std::vector<mc::Scenario>& s, bool th) {
        for (int i = 0; i < n; i++) if (b[i].limit[th]) s.push_back({b[i].name, [=] { scenario(b + i); }, b[i].limit[th] <= 30000});
    });
}
