// C07: coefficient ownership. Same shape as C01, with a coefficient type that owns memory and a lifecycle registry.
#include "common.h"
#include "observe_site.h"
#include <exception>
#include <iostream>
#include <unistd.h>

namespace hx { struct OwnFault { int at = 0, kind = 0; }; OwnFault &own_fault(); }
namespace {
using namespace sim;
std::vector<hx::Site const *> all;
std::vector<std::string> names;
std::vector<int> breakable;                                  // operations that let a failing coefficient through and have a state in the middle of the call
void load() {
    if (!all.empty()) return;
    for (auto &t : hx::tables()) for (hx::Site const *s = t.sites; s->name; s++) { all.push_back(s); names.push_back(std::string(t.name) + ": " + s->name); }
    for (size_t i = 0; i < names.size(); i++) if (names[i].find("join") != std::string::npos || names[i].find("fast") != std::string::npos) breakable.push_back((int)i);
}
enum { F_SPOIL, F_DESTROY, F_MUTATE, F_EXC, F_SHARED, F_PREEMPT, F_GARBAGE, F_FAIL };

void gen(Rng &r, Plan &p, bool thorough) {
    load();
    swarm_schedule(r, p);
    if (r.chance(1, 2)) p.sched.p[PT_COEF] = 512 << r.below(5);
    p.ntasks = (int)(r.chance(4, 10) ? 1 : r.chance(7, 10) ? 2 : 3);
    int nfocus = 1 + r.below(5), first = r.below(all.size());
    std::vector<int> focus;
    for (int i = 0; i < nfocus; i++) focus.push_back(r.chance(1, 3) ? r.below(all.size()) : (int)((first + (i ? r.below(40) : 0)) % all.size()));
    int idxs[3] = { (int)r.below(hx::NORD), (int)r.below(hx::NORD), (int)r.below(hx::NORD) };
    int n = 1 + r.below(p.ntasks > 1 ? 6 : 8);
    if (thorough && r.chance(1, 10)) n += r.below(30);
    if (r.chance(1, 60)) {                                                             // a long history of few operations
        n = 40 + r.below(r.chance(1, 3) ? 260 : 60);
        nfocus = 1 + r.below(std::min(nfocus, 2));
        if (r.chance(1, 2)) p.ntasks = 1;
    }
    for (int i = 0; i < n; i++) {
        Op o;
        o.task = r.below(p.ntasks);
        o.code = focus[r.below(nfocus)];
        for (int k = 0; k < 2; k++) o.a[k] = idxs[r.below(3)];
        o.a[2] = r.below(4);
        o.a[3] = r.below(256);
        o.a[4] = r.chance(1, 3) ? 1 + r.below(r.chance(1, 2) ? 12 : r.chance(1, 2) ? 64 : 4096) : 0;
        o.a[5] = 1 + r.below(3);
        if (all[o.code]->arity < 2) { o.a[1] = 0; o.a[2] &= 1; }
        p.ops.push_back(o);
    }
    if (r.chance(1, 7)) {                                                              // calls that fail in the middle, followed by calls of the same operation on other operands
        int which = r.chance(2, 3) ? breakable[r.below(breakable.size())] : focus[0];
        if (r.chance(1, 2)) p.ntasks = 1;
        p.ops.clear();
        for (int i = 0, m = 3 + r.below(8); i < m; i++) {
            Op o;
            o.task = r.below(p.ntasks), o.code = which;
            for (int k = 0; k < 2; k++) o.a[k] = r.below(hx::NORD);
            o.a[3] = r.chance(1, 2) ? r.below(256) : 0;
            o.a[4] = r.chance(1, 2) ? 1 + r.below(4096) : 0, o.a[5] = 1 + r.below(3);
            if (all[o.code]->arity < 2) o.a[1] = 0;
            p.ops.push_back(o);
        }
    }
}
struct Ctx { Plan const *p; std::vector<uint64_t> const *ref; };
void body(int task, void *arg) {
    Ctx &c = *(Ctx *)arg;
    for (size_t i = 0; i < c.p->ops.size(); i++) {
        Op const &o = c.p->ops[i];
        if (o.task != task) continue;
        set_op((int)i);
        point(PT_OP);
        snprintf(out->note, sizeof out->note, "task %d in call '%s' operands %d,%d", task, names[o.code].c_str(), o.a[0], o.a[1]);
        if (o.a[3]) { scribble_stack(o.a[3]); fired(F_GARBAGE); }
        if (o.a[2]) fired(F_SHARED);
        hx::own_fault() = (*c.ref)[2 * i + 1] ? hx::OwnFault() : hx::OwnFault{ o.a[4], o.a[5] };
        uint64_t d = all[o.code]->run(hx::Args{ o.a, o.a[2] });
        note_value(d);
        if (d != (*c.ref)[2 * i]) violation("isolation", "call '" + names[o.code] + "' with operands " + std::to_string(o.a[0]) + "," + std::to_string(o.a[1]) + " gave another result than the same call alone in a fresh process");
    }
}
void exec(Plan const &p, std::vector<uint64_t> const &ref) {
    load();
    std::clog.rdbuf(nullptr);
    for (auto &o : p.ops) all[o.code]->prepare(hx::Args{ o.a, 0 });
    Ctx c{ &p, &ref };
    run_tasks(p.ntasks, body, &c, p.sched);
    out->faults[F_PREEMPT] += out->nswitch;
}
uint64_t op_key(Op const &o) { return mix(mix(mix(mix(mix(7, o.code), o.a[0]), o.a[1]), o.a[4]), o.a[4] ? o.a[5] : 0) | 1; }
void reference(Op const &o) {
    load();
    std::clog.rdbuf(nullptr);
    snprintf(out->note, sizeof out->note, "single call '%s' operands %d,%d", names[o.code].c_str(), o.a[0], o.a[1]);
    out->digest[0] = all[o.code]->run(hx::Args{ o.a, 0 });
    if (!o.a[4]) return;
    out->digest[1] = 1;                                      // most operations are declared noexcept: a failing coefficient ends the process there, by contract
    std::set_terminate([] { complete(); _exit(0); });
    hx::own_fault() = hx::OwnFault{ o.a[4], o.a[5] };
    all[o.code]->run(hx::Args{ o.a, 0 });
    out->digest[1] = 0;
}
std::string describe(Plan const &, Op const &o) {
    load();
    return names[o.code] + " operands " + std::to_string(o.a[0]) + "," + std::to_string(o.a[1]) + (o.a[2] & 1 ? " (0 shared)" : "") + (o.a[2] & 2 ? " (1 shared)" : "") + (o.a[4] ? std::string(", ") + (o.a[5] == 1 ? "bad_alloc" : o.a[5] == 2 ? "a class" : "an int") + " thrown by coefficient operation " + std::to_string(o.a[4]) + " before (unless that ends the process by contract)" : std::string());
}
std::string tag(Plan const &, Op const &o) { load(); return names[o.code]; }
}
namespace hx {
void own_violation(char const *cls, char const *what) { sim::violation(cls, what); }
void own_phase(int w) { sim::fired(w); }
namespace { OwnFault own_faults[sim::MAXT + 1]; }
OwnFault &own_fault() { return own_faults[sim::self() + 1]; }
char const *own_failed_as(int kind, int id) {
    if (!copy_fault_fired()) return "";                    // an exception of the call itself
    try { throw; }
    catch (InjectedFault const &e) { return kind == FK_CUSTOM && e.id == id ? "" : "the exception that left the call is not the one the coefficient raised"; }
    catch (std::bad_alloc const &) { return kind == FK_BADALLOC ? "" : "bad_alloc left the call instead of the exception the coefficient raised"; }
    catch (int v) { return kind == FK_INT && v == id ? "" : "an int left the call instead of the exception the coefficient raised"; }
    catch (...) { return "another exception left the call than the one the coefficient raised"; }
}
void own_failed(bool fired_) { if (fired_) sim::fired(7); }
void churn_memory(int seed) {
    void *b[12];
    for (int i = 0; i < 12; i++) { b[i] = ::operator new(8 << (i % 6)); std::memset(b[i], seed * 17 + i, 8 << (i % 6)); }
    for (int i = 0; i < 12; i++) ::operator delete(b[i]);
    sim::scribble_stack(seed * 29 + 7, 16);
}
}
sim::Workload const sim::workload = { "C07",
    { "operands modified while the result lives", "operands destroyed and their memory reused while the result lives", "result modified while the operands live", "call ended by an exception", "operands shared with other tasks", "preemption at a scheduling point", "garbage in unused stack memory", "an operation of a coefficient fails in the middle of the call" },
    gen, exec, op_key, reference, describe, 2, tag, 1u << F_PREEMPT | 1u << F_GARBAGE };
