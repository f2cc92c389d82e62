// Uninstrumented part of the harness.
#include "common.h"
#include "writejob.h"
#include <cstdlib>
#include <limits>
#include <ostream>
#include <unordered_map>

namespace hx {

double value_of(int idx, int comp, int ncomp, int salt) {
    static double const base[16] = { 1.5, -2.25, 0.75, 3.0, -0.5, 2.0, -1.25, 0.625, 4.5, -3.5, 1.125, -0.875, 2.75, 5.0, -4.0, 0.375 };
    static double const other[16] = { -0.75, 1.25, 2.5, -1.0, 3.75, -2.125, 0.25, 6.0, -5.5, 1.75, -3.25, 0.125, 7.0, -0.3125, 2.375, 1.0625 };
    auto b = [&](int i) { return base[(unsigned)(i + salt * 5) % 16]; };
    if (idx == 23) return -0.0;
    if (idx == 22) { double v = value_of(20, comp, ncomp, salt); return v == 0.0 ? -0.0 : v; }      // the values of 20, zeros with the other sign
    if (idx >= NTIE || (idx >= 18 && idx < NORD)) {
        uint64_t h = sim::mix(sim::mix((uint64_t)idx * 7919, comp), salt);
        if (idx == 18) return comp & 1 ? -1.0 : 1.0;
        int range = idx == 19 || idx % 3 == 0 ? 1 : 2;
        return (double)((int)(h % (2 * range + 1)) - range);
    }
    if (idx >= NIDX) {                                    // any number of further values, exact in binary
        uint64_t h = sim::mix(sim::mix((uint64_t)idx * 7919, comp), salt);
        return (double)((int64_t)(h % 4001) - 2000) / 256.0;
    }
    switch (idx) {
    case 0: return b(comp);
    case 1: return comp == 0 ? b(0) + 1.0 : b(comp);
    case 2: return comp == ncomp - 1 ? b(comp) - 0.5 : b(comp);
    case 3: return b((comp + 1) % ncomp);
    case 4: return -b(comp);
    case 5: return 2.0 * b(comp);
    case 6: return comp == ncomp / 2 ? 0.0 : b(comp);
    case 7: return comp == ncomp - 1 ? 1.75 : 0.0;
    case 8: return other[(unsigned)(comp + salt * 3) % 16];
    case 9: return 1.0e6 * other[(unsigned)(comp + salt) % 16];
    case 10: return comp == 0 ? b(0) : 1.0e-10 * b(comp);
    case 12: return b(comp >= ncomp - 2 && ncomp > 1 ? 2 * ncomp - 3 - comp : comp);      // the values of 0, the last two swapped
    case 13: return comp == ncomp - 1 ? -b(comp) : b(comp);                              // the values of 0, the last one negated
    case 14: return b(ncomp - 1 - comp);                                                 // the values of 0 in reverse
    case 15: return comp < 2 && ncomp > 1 ? b(1 - comp) : b(comp);                       // the values of 0, the first two swapped
    case 16: return 0.0;
    case 17: return comp % 3 == 0 ? 1.0e-18 * b(comp) : comp % 3 == 1 ? 1.0e-8 * b(comp) : b(comp);   // below and near the tolerances
    case NORD: return comp == ncomp - 1 ? std::numeric_limits<double>::quiet_NaN() : b(comp);
    case NORD + 1: return comp == 0 ? std::numeric_limits<double>::infinity() : comp == 1 ? 1.0e-310 : 1.0e160 * b(comp);
    case NSMALL: return 0.0625 * b(comp);
    case NSMALL + 1: return 0.02 * b(comp);
    case NSMALL + 2: return 1.0e-5 * b(comp);
    case NSMALL + 3: return 1.0e-9 * b(comp);
    case 11: default: return comp % 2 ? -0.0 : other[(unsigned)(comp * 3 + salt) % 16] / 3.0;
    }
}

int next_index(int idx, int by) { return idx >= NIDX ? idx + by : idx >= 18 && idx < NORD ? 18 + (idx - 18 + by) % (NORD - 18) : (idx + by) % 18; }

namespace {
enum St : unsigned char { DEAD, ALIVE, MOVED };
struct Rec { St st; void const *node; int task; };
struct Reg {
    std::unordered_map<void const *, Rec> m;
    long live = 0, by_task[sim::MAXT + 1] = {};
};
Reg *reg_ = nullptr;
struct FaultSt { int left = 0; FaultKind kind = FK_NONE; int id = 0; int seen = 0; bool fired = false; };
FaultSt fs[sim::MAXT + 1];
int quiet[sim::MAXT + 1];
}
}
// The registry must not use the simulated heap: it would change what the library sees there.
namespace sim { extern bool in_shadow_flag(bool); }
namespace hx {
struct Outside { bool was; Outside() : was(sim::in_shadow_flag(true)) {} ~Outside() { sim::in_shadow_flag(was); } };

static std::string where(void const *o) { char b[64]; snprintf(b, sizeof b, " (coefficient object %p, task %d)", o, sim::self()); return b; }

void life(LifeOp op, void const *obj, void const *node) {
    int t = sim::self() + 1;
    if (!quiet[t]) sim::point(sim::PT_COEF);
    Outside _;
    if (!reg_) { reg_ = new Reg(); reg_->m.reserve(4096); }
    Reg &r = *reg_;
    auto it = r.m.find(obj);
    switch (op) {
    case L_BORN:
        if (it != r.m.end()) sim::violation("lifecycle", "a coefficient was constructed over a coefficient that was never destroyed" + where(obj));
        r.m[obj] = Rec{ ALIVE, node, t }; r.live++; r.by_task[t]++;
        return;
    case L_GONE:
        if (it == r.m.end()) sim::violation("lifecycle", "a coefficient was destroyed twice, or destroyed without having been constructed" + where(obj));
        if (it->second.node != node) sim::violation("lifecycle", "the memory of a coefficient was overwritten behind its back before it was destroyed" + where(obj));
        r.by_task[t]--; r.live--; r.m.erase(it);
        return;
    case L_READ:
        if (it == r.m.end()) sim::violation("dead-read", "a coefficient was read outside its lifetime" + where(obj));
        if (it->second.st == MOVED) sim::violation("moved-read", "a coefficient was read after it had been moved from" + where(obj));
        if (it->second.node != node) sim::violation("lifecycle", "the memory of a coefficient was overwritten behind its back before it was read" + where(obj));
        return;
    case L_WRITE:
        if (it == r.m.end()) sim::violation("dead-write", "a coefficient was assigned outside its lifetime" + where(obj));
        if (it->second.node != node) sim::violation("lifecycle", "the memory of a coefficient was overwritten behind its back before it was assigned" + where(obj));
        return;
    case L_MOVED: if (it != r.m.end()) { it->second.st = MOVED; it->second.node = nullptr; } return;
    case L_REFILL: if (it != r.m.end()) { it->second.st = ALIVE; it->second.node = node; } return;
    }
}
long live_objects() { return reg_ ? reg_->live : 0; }
long live_objects_of_task() { return reg_ ? reg_->by_task[sim::self() + 1] : 0; }
bool is_alive(void const *o) { return reg_ && reg_->m.count(o); }
bool is_moved_from(void const *o) { if (!reg_) return false; auto it = reg_->m.find(o); return it != reg_->m.end() && it->second.st == MOVED; }

void arm_copy_fault(int n, FaultKind k, int id) { FaultSt &f = fs[sim::self() + 1]; f = FaultSt(); f.left = n; f.kind = k; f.id = id; }
int disarm_copy_fault() { FaultSt &f = fs[sim::self() + 1]; f.kind = FK_NONE; f.left = 0; return f.seen; }
bool copy_fault_fired() { return fs[sim::self() + 1].fired; }
void maybe_copy_fault() {
    int t = sim::self() + 1;
    FaultSt &f = fs[t];
    if (quiet[t]) return;
    f.seen++;
    if (f.left > 0 && --f.left == 0) {
        f.fired = true;
        switch (f.kind) {
        case FK_BADALLOC: throw std::bad_alloc();
        case FK_CUSTOM: throw InjectedFault(f.id);
        case FK_INT: throw int(f.id);
        default: break;
        }
    }
}
void quiet_coef(bool on) { quiet[sim::self() + 1] += on ? 1 : -1; }

namespace { struct InsSt { int left = 0; InserterFault kind = IF_NONE; int id = 0; bool fired = false; } ins[sim::MAXT + 1]; WriteJob jobs[sim::MAXT + 1]; }
WriteJob &job() { return jobs[sim::self() + 1]; }
void arm_inserter(int n, InserterFault k, int id) { InsSt &f = ins[sim::self() + 1]; f = InsSt(); f.left = n; f.kind = k; f.id = id; }
bool inserter_fired() { return ins[sim::self() + 1].fired; }
std::ostream &operator<<(std::ostream &o, S const &a) {
    int t = sim::self() + 1;
    if (!quiet[t]) {
        sim::point(sim::PT_COEF);
        InsSt &f = ins[t];
        if (f.left > 0 && --f.left == 0) {
            f.fired = true;
            switch (f.kind) {
            case IF_CUSTOM: throw InjectedFault(f.id);
            case IF_BADALLOC: throw std::bad_alloc();
            case IF_INT: throw int(f.id);
            case IF_FAILBIT: o.setstate(std::ios_base::failbit); return o;
            default: break;
            }
        }
    }
    return o << a.get();
}
uint64_t outcome_of_exception(char const *n) { return sim::mix(0xe4ce97, sim::hash_bytes(n, strlen(n))); }
void operand_changed(int which, char const *when) { sim::violation("operand-changed", std::string("the call changed operand ") + std::to_string(which) + ", " + when); }
}
