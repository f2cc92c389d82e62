#include "simrt.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <ctime>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {

char const *const point_names[PT_N] = { "read", "write", "atomic", "sync", "op", "coefficient", "io", "callback" };
static Outcome dummy_outcome;
Outcome *out = &dummy_outcome;

// ---------------------------------------------------------------------------------------------------------------
// Heap: a fixed-address arena with immediate (LIFO) reuse and fill patterns, so that addresses and the contents of
// fresh and freed memory are a function of the execution alone.
static char *const ARENA = (char *)0x200000000000ull;
static size_t const ARENA_SIZE = 1ull << 30;
static char *arena_top = nullptr;
static bool in_shadow = false;                     // the runtime itself is running
static bool heap_on = false;                       // operator new serves from the arena (only inside a run)
void simulated_heap(bool on) { heap_on = on; }
static unsigned char fill_alloc = 0xcd, fill_free = 0xdd;
struct FreeNode { FreeNode *next; };
static FreeNode *bins[64];
static size_t n_live = 0;
static int arena_lock = 0;

static void arena_init() {
    if (arena_top) return;
    void *p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) { static char const m[] = "sim: cannot map the arena\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
    arena_top = (char *)p + 64;
}
static void shadow_clear(void const *p, size_t n);
static inline int bin_of(size_t n) { int b = 5; while (((size_t)1 << b) < n) b++; return b; }
static void *arena_alloc(size_t n) {
    while (__atomic_exchange_n(&arena_lock, 1, __ATOMIC_ACQUIRE)) {}
    arena_init();
    size_t need = n + 16;
    int b = bin_of(need);
    char *p;
    if (bins[b]) { p = (char *)bins[b]; bins[b] = bins[b]->next; }
    else {
        size_t sz = (size_t)1 << b;
        if (arena_top + sz > ARENA + ARENA_SIZE) { __atomic_store_n(&arena_lock, 0, __ATOMIC_RELEASE); return nullptr; }
        p = arena_top; arena_top += sz;
    }
    *(uint64_t *)p = n; *(uint64_t *)(p + 8) = 0x51a110ca7edull;
    memset(p + 16, fill_alloc, n);
    n_live++;
    shadow_clear(p, need);
    __atomic_store_n(&arena_lock, 0, __ATOMIC_RELEASE);
    return p + 16;
}
static bool in_arena(void const *q) { return (char const *)q >= ARENA && (char const *)q < ARENA + ARENA_SIZE; }
static void arena_free(void *q) {
    if (!q) return;
    char *p = (char *)q - 16;
    if (*(uint64_t *)(p + 8) != 0x51a110ca7edull) violation("heap", "operator delete on a block that is not live (double free or wild pointer)");
    while (__atomic_exchange_n(&arena_lock, 1, __ATOMIC_ACQUIRE)) {}
    size_t n = *(uint64_t *)p;
    *(uint64_t *)(p + 8) = 0xdeadull;
    memset(q, fill_free, n);
    shadow_clear(p, n + 16);
    int b = bin_of(n + 16);
    ((FreeNode *)p)->next = bins[b]; bins[b] = (FreeNode *)p;
    n_live--;
    __atomic_store_n(&arena_lock, 0, __ATOMIC_RELEASE);
}
size_t live_blocks() { return n_live; }
void set_heap_fill(unsigned char a, unsigned char f) { fill_alloc = a; fill_free = f; }

// ---------------------------------------------------------------------------------------------------------------
// Tasks and the scheduler.
struct VC { uint32_t c[MAXT + 1] = {}; void join(VC const &o) { for (int i = 0; i <= MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum State { ST_RUN, ST_BLOCKED, ST_DONE };
struct Task {
    int id;
    pthread_t th;
    uintptr_t lo, size;
    State st;
    void const *chan;
    int fut;
    VC vc;
    void (*fn)(int, void *);
    void *arg;
};
static Task tasks[MAXT];
static int ntasks = 0;
static bool g_active = false;
static int main_fut = 0;
static Sched const *cfg = nullptr;
static Rng sched_rng(1);
static uint64_t n_clock = 0;
static size_t list_pos = 0;
static uint64_t slice = 0;
static thread_local Task *tl = nullptr;

static void fut_wait(int *f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELAXED); }
static void fut_wake(int *f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

int self() { return tl ? tl->id : -1; }
bool active() { return g_active && tl; }

[[noreturn]] void violation(char const *cls, std::string const &detail) {
    static int once = 0;
    if (!__atomic_exchange_n(&once, 1, __ATOMIC_ACQ_REL)) {
        snprintf(out->cls, sizeof out->cls, "%s", cls);
        snprintf(out->detail, sizeof out->detail, "%s", detail.c_str());
        out->cur_task = self();
        out->status = 2;
    }
    _exit(3);
}
void complete() { out->status = 1; }
void fired(int f) { out->faults[f]++; }
void note_value(uint64_t v) { out->hash = mix(out->hash, v); out->val_hash = mix(out->val_hash, v); }
void set_op(int op) { out->cur_op[self() + 1] = op; }

static int runnable_list(int *r, int except) { int n = 0; for (int i = 0; i < ntasks; i++) if (i != except && tasks[i].st == ST_RUN) r[n++] = i; return n; }

static void hand_to(int to) {
    out->nswitch++;
    if (out->nrec < sizeof out->rec / sizeof out->rec[0]) out->rec[out->nrec++] = Switch{ out->steps, to };
    out->hash = mix(out->hash, (out->steps << 4) | (unsigned)to);
    out->order_hash = mix(out->order_hash, (out->steps << 4) | (unsigned)to);
    slice = 0;
    fut_wake(&tasks[to].fut);
}
static void switch_to(int to) { Task *me = tl; hand_to(to); fut_wait(&me->fut); }

// Chooses who runs when the current task cannot (blocked or finished); -1 if nobody can.
static int choose_next(int me) {
    int r[MAXT], n = runnable_list(r, me);
    if (!n) return -1;
    if (cfg->random) return r[sched_rng.below(n)];
    // explicit list: the next entry names the task if it is due here
    while (list_pos < cfg->list.size() && cfg->list[list_pos].step < out->steps) list_pos++;
    if (list_pos < cfg->list.size() && cfg->list[list_pos].step == out->steps) {
        int t = cfg->list[list_pos].task;
        for (int i = 0; i < n; i++) if (r[i] == t) { list_pos++; return t; }
    }
    return r[0];
}

void point(Point k) {
    Task *me = tl;
    if (!me || !g_active) return;
    out->steps++;
    out->points[k]++;
    slice++;
    if (out->steps > cfg->max_steps) violation("stuck", "no end within the step limit");
    int to = -1;
    if (cfg->random) {
        if (cfg->p[k] && (sched_rng.next() & 0xffff) < cfg->p[k]) {
            int r[MAXT], n = runnable_list(r, me->id);
            if (n) to = r[sched_rng.below(n)];
        }
    }
    else {
        while (list_pos < cfg->list.size() && cfg->list[list_pos].step < out->steps) list_pos++;
        if (list_pos < cfg->list.size() && cfg->list[list_pos].step == out->steps) {
            int t = cfg->list[list_pos++].task;
            if (t != me->id && t < ntasks && tasks[t].st == ST_RUN) to = t;
        }
    }
    if (to < 0 && slice > 20000) {                       // fairness: a spinning task cannot starve the others
        for (int i = 1; i < ntasks && to < 0; i++) { int t = (me->id + i) % ntasks; if (tasks[t].st == ST_RUN && t != me->id) to = t; }
        slice = 0;
    }
    if (to >= 0) switch_to(to);
}

static void block_on(void const *chan) {
    Task *me = tl;
    me->st = ST_BLOCKED; me->chan = chan;
    out->steps++;
    int to = choose_next(me->id);
    if (to < 0) violation("deadlock", "every task is blocked");
    switch_to(to);
}
static void wake_all(void const *chan) { for (int i = 0; i < ntasks; i++) if (tasks[i].st == ST_BLOCKED && tasks[i].chan == chan) { tasks[i].st = ST_RUN; tasks[i].chan = nullptr; } }

static void *task_main(void *p) {
    Task *t = (Task *)p;
    tl = t;
    fut_wait(&t->fut);
    try { t->fn(t->id, t->arg); }
    catch (std::exception const &e) { violation("escaped", std::string("an exception left the task: ") + e.what()); }
    catch (...) { violation("escaped", "an unknown exception left the task"); }
    t->st = ST_DONE;
    wake_all(t);
    out->steps++;
    int to = choose_next(t->id);
    if (to >= 0) { hand_to(to); }
    else {
        for (int i = 0; i < ntasks; i++) if (tasks[i].st == ST_BLOCKED) violation("deadlock", "a task stayed blocked after all others ended");
        g_active = false;
        fut_wake(&main_fut);
    }
    tl = nullptr;
    return nullptr;
}

void run_tasks(int n, void (*fn)(int, void *), void *arg, Sched const &s) {
    cfg = &s; sched_rng = Rng(s.seed); list_pos = 0; slice = 0; ntasks = n; main_fut = 0;
    size_t const SZ = 1 << 20;
    for (int i = 0; i < n; i++) {
        Task &t = tasks[i];
        t = Task{};
        t.id = i; t.st = ST_RUN; t.fn = fn; t.arg = arg; t.vc.c[i] = 1;
        char *stk = (char *)mmap((void *)(0x300000000000ull + (uint64_t)i * (SZ * 4)), SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (stk == MAP_FAILED) _exit(98);
        // the part of the stack the task will use first holds garbage, not zeros
        if (s.stack_fill) memset(stk + SZ - 160 * 1024, (int)s.stack_fill, 120 * 1024);
        t.lo = (uintptr_t)stk; t.size = SZ;
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stk, SZ);
        if (pthread_create(&t.th, &a, task_main, &t)) _exit(97);
    }
    g_active = true;
    int first = 0;
    if (s.random) first = (int)sched_rng.below(n);
    else if (!s.list.empty() && s.list[0].step == 0) { first = s.list[0].task; if (first >= n) first = 0; list_pos = 1; }
    hand_to(first);
    fut_wait(&main_fut);
    for (int i = 0; i < n; i++) pthread_join(tasks[i].th, nullptr);
    for (int i = 0; i < n; i++) munmap((void *)tasks[i].lo, tasks[i].size);
    ntasks = 0;
}

// ---------------------------------------------------------------------------------------------------------------
// Happens-before race detector over the accesses the simulated schedule makes.
struct Cell { uint32_t w[MAXT], r[MAXT], a[MAXT]; uint8_t wm[MAXT], rm[MAXT], am[MAXT]; void *wpc[MAXT]; };
static std::unordered_map<uintptr_t, Cell> *shadow_map = nullptr;
static std::unordered_map<uintptr_t, VC> *sync_map = nullptr;
bool in_shadow_flag(bool v) { bool o = in_shadow; in_shadow = v; return o; }
static auto &shadow() { if (!shadow_map) { bool o = in_shadow; in_shadow = true; shadow_map = new std::unordered_map<uintptr_t, Cell>(); shadow_map->reserve(4096); in_shadow = o; } return *shadow_map; }
static auto &syncs() { if (!sync_map) { sync_map = new std::unordered_map<uintptr_t, VC>(); } return *sync_map; }

static void shadow_clear(void const *p, size_t n) {
    if (!shadow_map || !g_active || in_shadow) return;
    for (uintptr_t g = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3; g < e; g++) shadow_map->erase(g);
}
static bool skip_addr(uintptr_t a);

static void race(Task *me, void *addr, size_t n, char const *what, int other, char const *owhat, void *pc, void *opc) {
    char b[400];
    snprintf(b, sizeof b, "data race: task %d %s %zu bytes (pc %p) concurrently with task %d %s (pc %p), %s memory", me->id, what, n, pc, other, owhat, opc, in_arena(addr) ? "heap" : "static");
    violation("race", b);
}
static void check(Task *me, uintptr_t a, size_t n, bool wr, bool at, void *pc) {
    in_shadow = true;
    auto &sh = shadow();
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
        uint8_t m = 0;
        for (int i = 0; i < 8; i++) { uintptr_t x = (g << 3) + i; if (x >= a && x < a + n) m |= 1u << i; }
        Cell &c = sh[g];
        for (int o = 0; o < ntasks; o++) {
            if (o == me->id) continue;
            if ((c.wm[o] & m) && c.w[o] > me->vc.c[o]) race(me, (void *)a, n, wr ? "writes" : "reads", o, "wrote", pc, c.wpc[o]);
            if (wr && (c.rm[o] & m) && c.r[o] > me->vc.c[o]) race(me, (void *)a, n, "writes", o, "read", pc, nullptr);
            if (!at && (c.am[o] & m) && c.a[o] > me->vc.c[o]) race(me, (void *)a, n, wr ? "writes" : "reads", o, "atomically wrote", pc, nullptr);
        }
        uint32_t now = me->vc.c[me->id];
        auto put = [&](uint32_t *ck, uint8_t *mk) { if (ck[me->id] == now) mk[me->id] |= m; else { ck[me->id] = now; mk[me->id] = m; } };
        if (at) { if (wr) put(c.a, c.am); }
        else if (wr) { put(c.w, c.wm); c.wpc[me->id] = pc; }
        else put(c.r, c.rm);
    }
    in_shadow = false;
}
static inline void access(void *p, size_t n, bool wr, void *pc) {
    Task *me = tl;
    if (!me || !g_active || n == 0 || in_shadow) return;
    uintptr_t a = (uintptr_t)p;
    if (a - me->lo < me->size) return;                   // the task's own stack (and thread-local storage)
    if (skip_addr(a)) return;
    point(wr ? PT_WRITE : PT_READ);
    check(me, a, n, wr, false, pc);
}
static void acquire(void const *p) { if (tl && g_active) { in_shadow = true; auto it = syncs().find((uintptr_t)p); if (it != syncs().end()) tl->vc.join(it->second); in_shadow = false; } }
static void release(void const *p) { if (tl && g_active) { in_shadow = true; syncs()[(uintptr_t)p].join(tl->vc); tl->vc.c[tl->id]++; in_shadow = false; } }
static inline void atomic_pre(void *p, size_t n, bool wr, void *pc) {
    Task *me = tl;
    if (!me || !g_active || in_shadow) return;
    point(PT_ATOMIC);
    uintptr_t a = (uintptr_t)p;
    if (a - me->lo < me->size || skip_addr(a)) return;
    check(me, a, n, wr, true, pc);
}
static inline bool acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void __attribute__((noinline)) scribble_stack(unsigned pattern, int kb) {
    volatile char *b = (volatile char *)__builtin_alloca(kb * 1024);
    for (int i = 0; i < kb * 1024; i++) b[i] = (char)(pattern + (pattern & 1 ? i : 0));
}

// ---------------------------------------------------------------------------------------------------------------
// Abnormal ends.
static void on_terminate() {
    std::string d = "std::terminate was called";
    if (std::type_info *t = abi::__cxa_current_exception_type()) { d += " while an exception was being handled or propagated: "; d += t->name(); }
    violation("terminate", d);
}
static void on_signal(int s) {
    static char b[64];
    snprintf(b, sizeof b, "signal %d", s);
    violation(s == SIGABRT ? "abort" : "crash", b);
}
void arm_terminate_handlers() {
    std::set_terminate(on_terminate);
    static char alt[65536];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT }) { struct sigaction a{}; a.sa_handler = on_signal; a.sa_flags = 0; sigaction(s, &a, nullptr); }
}
}

// The standard stream objects are synchronised by the C++ library (they may be used by several threads without a race).
extern "C++" {
#include <iostream>
}
namespace sim {
static bool skip_addr(uintptr_t a) {
    auto in = [&](void const *o, size_t n) { return a - (uintptr_t)o < n; };
    return in(&std::cout, sizeof std::cout) || in(&std::cerr, sizeof std::cerr) || in(&std::clog, sizeof std::clog) || in(&std::cin, sizeof std::cin);
}
}

using namespace sim;

void *operator new(size_t n) { if (in_shadow || !heap_on) { void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; } void *p = arena_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return in_shadow || !heap_on ? malloc(n) : arena_alloc(n); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return in_shadow || !heap_on ? malloc(n) : arena_alloc(n); }
void operator delete(void *p) noexcept { if (p && !in_arena(p)) free(p); else arena_free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(T const volatile *p, int mo) { atomic_pre((void *)p, sizeof(T), false, PC); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); if (acq(mo)) acquire((void *)p); return v; } \
    void __tsan_atomic##bits##_store(T volatile *p, T v, int mo) { atomic_pre((void *)p, sizeof(T), true, PC); if (rel(mo)) release((void *)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(T volatile *p, T v, int mo) { atomic_pre((void *)p, sizeof(T), true, PC); if (acq(mo)) acquire((void *)p); if (rel(mo)) release((void *)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(T volatile *p, T v, int mo) { atomic_pre((void *)p, sizeof(T), true, PC); if (acq(mo)) acquire((void *)p); if (rel(mo)) release((void *)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(T volatile *p, T v, int mo) { atomic_pre((void *)p, sizeof(T), true, PC); if (acq(mo)) acquire((void *)p); if (rel(mo)) release((void *)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(T volatile *p, T v, int mo) { atomic_pre((void *)p, sizeof(T), true, PC); if (acq(mo)) acquire((void *)p); if (rel(mo)) release((void *)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(T volatile *p, T v, int mo) { atomic_pre((void *)p, sizeof(T), true, PC); if (acq(mo)) acquire((void *)p); if (rel(mo)) release((void *)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(T volatile *p, T v, int mo) { atomic_pre((void *)p, sizeof(T), true, PC); if (acq(mo)) acquire((void *)p); if (rel(mo)) release((void *)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(T volatile *p, T v, int mo) { atomic_pre((void *)p, sizeof(T), true, PC); if (acq(mo)) acquire((void *)p); if (rel(mo)) release((void *)p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(T volatile *p, T *e, T v, int mo, int fmo) { atomic_pre((void *)p, sizeof(T), true, PC); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (acq(ok ? mo : fmo)) acquire((void *)p); if (ok && rel(mo)) release((void *)p); return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(T volatile *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(T volatile *p, T e, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char fence_obj;
void __tsan_atomic_thread_fence(int mo) { if (active()) { point(PT_ATOMIC); if (acq(mo)) acquire(&fence_obj); if (rel(mo)) release(&fence_obj); } }
void __tsan_atomic_signal_fence(int) {}

// Block copies made by instrumented code.
void *sim_memcpy(void *d, void const *s, size_t n) { if (tl && !in_shadow) { access((void *)s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
void *sim_memmove(void *d, void const *s, size_t n) { if (tl && !in_shadow) { access((void *)s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { if (tl && !in_shadow) access(d, n, true, PC); return memset(d, c, n); }

// Every symbol sim_X below replaces X in the instrumented objects (objcopy --redefine-sym).
// Function-local static initialisation. Byte 0: initialised; byte 1: in progress.
int sim___cxa_guard_acquire(uint64_t *g) {
    unsigned char *b = (unsigned char *)g;
    if (active()) point(PT_SYNC);
    for (;;) {
        if (b[0]) { acquire(g); return 0; }
        if (!b[1]) { b[1] = 1; acquire(g); return 1; }
        if (!active()) violation("deadlock", "recursive initialisation of a function-local static");
        block_on(g);
    }
}
void sim___cxa_guard_release(uint64_t *g) {
    unsigned char *b = (unsigned char *)g;
    release(g);
    b[1] = 0; b[0] = 1;
    if (active()) { wake_all(g); point(PT_SYNC); }
}
void sim___cxa_guard_abort(uint64_t *g) {
    unsigned char *b = (unsigned char *)g;
    release(g);
    b[1] = 0;
    if (active()) { wake_all(g); point(PT_SYNC); }
}

// Locks taken by simulated tasks are simulated; outside tasks the real ones are used.
struct SimMutex { int owner = -1; int depth = 0; int readers = 0; };
static std::unordered_map<void *, SimMutex> *mutexes;
static SimMutex &mtx(void *m) { in_shadow = true; if (!mutexes) mutexes = new std::unordered_map<void *, SimMutex>(); auto &r = (*mutexes)[m]; in_shadow = false; return r; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active()) return pthread_mutex_lock(m);
    point(PT_SYNC);
    while (true) {
        SimMutex &x = mtx(m);
        if (x.owner < 0) { x.owner = self(); x.depth = 1; break; }
        if (x.owner == self()) { if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x.depth++; break; } violation("deadlock", "a task locked a mutex it already holds"); }
        block_on(m);
    }
    acquire(m);
    return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active()) return pthread_mutex_trylock(m);
    point(PT_SYNC);
    SimMutex &x = mtx(m);
    if (x.owner < 0) { x.owner = self(); x.depth = 1; acquire(m); return 0; }
    if (x.owner == self() && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x.depth++; return 0; }
    return EBUSY;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active()) return pthread_mutex_unlock(m);
    SimMutex &x = mtx(m);
    if (x.owner != self()) return pthread_mutex_unlock(m);
    if (--x.depth == 0) { x.owner = -1; release(m); wake_all(m); point(PT_SYNC); }
    return 0;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (!active()) return pthread_rwlock_rdlock(m);
    point(PT_SYNC);
    while (mtx(m).owner >= 0) block_on(m);
    mtx(m).readers++; acquire(m);
    return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (!active()) return pthread_rwlock_wrlock(m);
    point(PT_SYNC);
    while (mtx(m).owner >= 0 || mtx(m).readers > 0) block_on(m);
    mtx(m).owner = self(); acquire(m);
    return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!active()) return pthread_rwlock_unlock(m);
    SimMutex &x = mtx(m);
    if (x.owner == self()) x.owner = -1; else x.readers--;
    release(m); wake_all(m); point(PT_SYNC);
    return 0;
}
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!active()) return pthread_once(o, f);
    point(PT_SYNC);
    while (true) {
        if (*o == 2) { acquire(o); return 0; }
        if (*o == 0) break;
        block_on(o);
    }
    *o = 1;
    try { f(); } catch (...) { *o = 0; release(o); wake_all(o); throw; }
    release(o); *o = 2; wake_all(o); point(PT_SYNC);
    return 0;
}

// Exception objects are reused by the C++ runtime: a new one has no history.
void *sim___cxa_allocate_exception(size_t n) noexcept { void *p = abi::__cxa_allocate_exception(n); if (tl) shadow_clear((char *)p - 128, n + 128); return p; }
void *sim_malloc(size_t n) { void *p = malloc(n); if (tl && p && !in_shadow) shadow_clear(p, n); return p; }
// Clocks and random sources of the platform: a function of the seed and of the steps made so far, with jumps.
static uint64_t sim_ticks() { n_clock++; uint64_t j = mix(cfg ? cfg->seed : 1, n_clock); return 1600000000000000000ull + out->steps * 1000 + n_clock * 977 + ((j & 7) == 0 ? (j >> 20) % 100000000000ull : 0); }
uint64_t sim_system_clock_now() { return sim_ticks(); }
uint64_t sim_steady_clock_now() { return sim_ticks(); }
int sim_clock_gettime(int, struct timespec *t) { uint64_t v = sim_ticks(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
long sim_time(long *t) { long v = (long)(sim_ticks() / 1000000000); if (t) *t = v; return v; }
long sim_clock(void) { return (long)(sim_ticks() / 1000 % 1000000007); }
int sim_rand(void) { n_clock++; return (int)(mix(cfg ? cfg->seed : 1, n_clock * 31) & 0x7fffffff); }
long sim_random(void) { return sim_rand(); }
unsigned sim_random_device(void *) { n_clock++; return (unsigned)mix(cfg ? cfg->seed : 1, n_clock * 57); }
// Voluntary yields and sleeps of simulated code are yield points.
int sim_sched_yield(void) { if (!active()) return sched_yield(); point(PT_SYNC); return 0; }
int sim_nanosleep(struct timespec const *a, struct timespec *b) { if (!active()) return nanosleep(a, b); slice += 5000; point(PT_SYNC); return 0; }
}
namespace sim { uint64_t clock_reads() { return n_clock; } }
