// Deterministic simulation runtime: every task of the simulated program is a real OS thread, but exactly one of them
// runs at any moment and the runtime alone decides, from one seeded generator (or from an explicit switch list), who
// runs next. Yield points are every instrumented memory access outside the running task's own stack, every atomic
// operation, every lock / once / static-initialisation guard, and the explicit points the harness adds inside the
// coefficient type, the stream buffers and the callbacks.
#ifndef SIMRT_H
#define SIMRT_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

constexpr int MAXT = 6;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed ^ 0x9e3779b97f4a7c15ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    template<class C> auto const &pick(C const &c) { return c[below((uint32_t)c.size())]; }
};

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline uint64_t hash_bytes(void const *p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto b = (unsigned char const *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}

// Classes of yield point.
enum Point { PT_READ, PT_WRITE, PT_ATOMIC, PT_SYNC, PT_OP, PT_COEF, PT_IO, PT_CB, PT_N };
extern char const *const point_names[PT_N];

struct Switch { uint64_t step; int task; };

// One schedule: random (probabilities per class of yield point, in 1/65536) or an explicit list of switches.
struct Sched {
    bool random = true;
    uint64_t seed = 1;
    uint32_t p[PT_N] = {};
    std::vector<Switch> list;
    uint64_t max_steps = 4000000;
    unsigned stack_fill = 0;
};

// What a run leaves behind (in memory shared with the parent process).
struct Outcome {
    int status;                     // 0 running / crashed, 1 completed, 2 violation recorded
    char cls[48];
    char detail[3000];
    uint64_t hash, steps, nswitch;
    uint64_t order_hash;            // hash of the order in which tasks ran their points (interleaving identity)
    uint64_t points[PT_N];
    uint64_t faults[64];
    uint64_t nrec;
    Switch rec[8192];
    int cur_task;
    int cur_op[MAXT + 1];
    uint64_t val_hash;
    char note[512];
    uint64_t digest[256];           // results of single calls (reference runs)
};
extern Outcome *out;

int self();                                             // 0..n-1 inside a task, -1 outside
void run_tasks(int n, void (*fn)(int, void *), void *arg, Sched const &s);
bool active();
void point(Point k);
void fired(int fault);                                  // counts a fault that took effect
void note_value(uint64_t v);                            // mixes an observed value into the run's hash
void set_op(int op);                                    // which operation the task is in (for reports)
[[noreturn]] void violation(char const *cls, std::string const &detail);
void complete();                                        // marks the run as completed
void scribble_stack(unsigned pattern, int kb = 8);      // overwrites the dead part of the caller's stack
void arm_terminate_handlers();
void set_heap_fill(unsigned char alloc_fill, unsigned char free_fill);
void simulated_heap(bool on);                           // operator new serves from the simulated heap
uint64_t clock_reads();                                 // reads of clocks and random sources by simulated code
size_t live_blocks();                                   // blocks obtained from operator new and not yet freed

// Coefficient lifecycle registry (harness coefficient type).
}
#endif
