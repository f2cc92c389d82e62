// Seeded search over plans (operations + faults + schedule), exact replay and minimisation.
#ifndef SIM_ENGINE_H
#define SIM_ENGINE_H
#include "simrt.h"

namespace sim {

constexpr int NARG = 8;
struct Op { int task = 0, code = 0; int a[NARG] = {}; };
struct Plan {
    int ntasks = 1;
    Sched sched;
    unsigned fill_alloc = 0xcd, fill_free = 0xdd;
    int knob[8] = {};
    std::vector<Op> ops;
    std::string origin;
};

// A workload is defined once per program (one program per property).
struct Workload {
    char const *property;
    std::vector<char const *> fault_names;                       // index = fault number given to fired()
    void (*gen)(Rng &, Plan &, bool thorough);                   // seeded generation of a run; must not call the library
    void (*exec)(Plan const &, std::vector<uint64_t> const &ref);// runs in its own process; calls violation() or returns
    uint64_t (*op_key)(Op const &);                              // identity of the single call for reference results (0: none)
    void (*reference)(Op const &);                               // makes the single call in a fresh process, fills out->digest[0]
    std::string (*describe)(Plan const &, Op const &);
    int op_slots;                                                // digests per op (<=8)
    std::string (*tag)(Plan const &, Op const &) = nullptr;      // coverage label of an op
    uint64_t weak_faults = 0;                                    // bit set: does not make a run non-trivial by itself
};
extern Workload const workload;

int engine_main(int argc, char **argv);

inline void swarm_schedule(Rng &r, Plan &p) {
    Sched &s = p.sched;
    s.random = true;
    s.seed = r.next();
    static uint32_t const plain[] = { 0, 0, 64, 512, 4096 };
    static uint32_t const strong[] = { 0, 2048, 16384, 32768 };
    for (int k = 0; k < PT_N; k++) s.p[k] = (k == PT_READ) ? plain[r.below(5)] / 4 : (k == PT_WRITE) ? plain[r.below(5)] : strong[r.below(4)];
    if (r.chance(1, 8)) for (auto &x : s.p) x = 0;               // sequential runs: history only
    s.stack_fill = r.below(256);
    p.fill_alloc = r.below(256);
    p.fill_free = r.below(256);
}
}
#endif
