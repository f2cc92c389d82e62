// C01: calls are isolated from history and from each other.
#include "common.h"
#include "observe_site.h"
#include <cfenv>
#include <clocale>
#include <exception>
#include <new>
#include <xmmintrin.h>
#include <iostream>
#include <locale>
#include <map>

namespace {
using namespace sim;
std::vector<hx::Site const *> all;
std::vector<std::string> names;
std::vector<std::vector<int>> families, tolerant;            // sites that call the same function; those where some are given a tolerance
void load() {
    if (!all.empty()) return;
    for (auto &t : hx::tables()) for (hx::Site const *s = t.sites; s->name; s++) { all.push_back(s); names.push_back(std::string(t.name) + ": " + s->name); }
    std::map<std::string, std::vector<int>> by;
    for (size_t i = 0; i < names.size(); i++) {
        std::string f = names[i].substr(names[i].find(": ") + 2);
        if (f.compare(0, 4, "ga::") == 0) f.erase(0, 4);
        by[f.substr(0, f.find_first_of("(<"))].push_back((int)i);
    }
    for (auto &x : by) {
        families.push_back(x.second);
        for (int i : x.second) if (names[i].find(", 0.") != std::string::npos || names[i].find(", 1.0e-") != std::string::npos || names[i].find("Cf(0.") != std::string::npos) { tolerant.push_back(x.second); break; }
    }
}
enum { F_SHARED, F_LOCAL_REUSE, F_CHURN, F_REPEAT, F_PREEMPT, F_HEAP_GARBAGE, F_STACK_GARBAGE, F_CLOCK };

// op: code = site, a[0], a[1] operands, a[2] operand passing, a[3] repetitions, a[4] other calls of the site just before, a[5] stack scribble
void gen(Rng &r, Plan &p, bool thorough) {
    load();
    swarm_schedule(r, p);
    p.ntasks = (int)(r.chance(3, 10) ? 1 : r.chance(7, 10) ? 2 : r.chance(8, 10) ? 3 : 4);
    int nfocus = 1 + r.below(5);
    std::vector<int> focus;
    int first = r.below(all.size());
    for (int i = 0; i < nfocus; i++) focus.push_back(r.chance(1, 3) ? r.below(all.size()) : (int)((first + (i ? r.below(60) : 0)) % all.size()));
    bool special = r.chance(1, 10);
    int nidx = special ? hx::NIDX : hx::NORD;
    int idxs[3] = { (int)r.below(nidx), (int)r.below(nidx), (int)r.below(nidx) };
    if (r.chance(1, 8)) for (int &x : idxs) x = 18 + r.below(hx::NORD - 18);
    static int const related[] = { 0, 1, 2, 3, 4, 5, 12, 13, 14, 15 };                  // values that agree in part
    if (r.chance(1, 3)) for (int &x : idxs) x = related[r.below(10)];
    static int const zeros[] = { 16, 23, 16, 23, 18, 20, 22 };                        // values that differ in the signs of zeros
    if (r.chance(1, 6)) for (int &x : idxs) x = zeros[r.below(7)];
    static int const small[] = { 0, 10, 16, 17, hx::NSMALL, hx::NSMALL, hx::NSMALL + 1, hx::NSMALL + 1, hx::NSMALL + 2, hx::NSMALL + 3 };   // values on both sides of tolerances
    if (r.chance(1, 6)) for (int &x : idxs) x = small[r.below(10)];
    if (r.chance(1, 4)) {                                                              // overloads of one function (other types, metrics, tolerances)
        auto const &from = r.chance(1, 2) ? tolerant : families;
        std::vector<int> const &same = from[r.below(from.size())];
        for (int &x : focus) x = same[r.below(same.size())];
        if (r.chance(1, 3)) for (int &x : idxs) x = small[r.below(10)];
    }
    bool wide = r.chance(1, 3), wild = r.chance(1, 12), big = r.chance(1, 25);
    int n = 2 + r.below(p.ntasks > 1 ? 8 : 14);
    if (thorough && r.chance(1, 10)) n += r.below(40);
    for (int i = 0; i < n; i++) {
        Op o;
        o.task = r.below(p.ntasks);
        o.code = wild ? r.below(all.size()) : focus[r.below(nfocus)];
        for (int k = 0; k < 2; k++) o.a[k] = wide ? r.below(nidx) : idxs[r.below(3)];
        if (r.chance(1, 3)) o.a[1] = o.a[0];
        o.a[2] = r.below(4);
        o.a[3] = r.chance(1, 8) ? 1 + r.below(big ? 400 : 8) : 0;
        o.a[4] = r.chance(1, 6) ? 1 + r.below(big ? 300 : 6) : 0;
        o.a[5] = r.chance(1, 2) ? 1 + r.below(255) : 0;
        if (all[o.code]->arity < 2) o.a[1] = 0;
        p.ops.push_back(o);
    }
    if (r.chance(1, 5)) {                                                              // one operation, on operands that are told apart by little
        static int const pairs[][2] = { { 16, 23 }, { 16, 23 }, { 16, 23 }, { 20, 22 }, { 0, 1 }, { 0, 2 }, { 0, 4 }, { 0, 5 }, { 0, 12 }, { 0, 13 }, { 0, 14 }, { 0, 15 }, { 18, 4 }, { 7, 16 } };
        int const *q = pairs[r.below(14)], other = r.chance(1, 2) ? 18 + r.below(4) : r.below(hx::NORD), place = r.below(3);
        if (r.chance(1, 2)) p.ntasks = 1;
        p.ops.resize(std::min<size_t>(p.ops.size(), 6));
        for (Op &o : p.ops) {
            o.task = o.task % p.ntasks, o.code = focus[0], o.a[3] = o.a[4] = 0;
            o.a[0] = place == 1 ? other : q[r.below(2)], o.a[1] = place == 0 ? other : q[r.below(2)];
            if (all[o.code]->arity < 2) o.a[0] = q[r.below(2)], o.a[1] = 0;
        }
    }
    if (r.chance(1, 14)) {                                                             // one operation called very often
        p.ntasks = 1;
        p.ops.resize(2);
        if (r.chance(1, 3)) for (int &x : idxs) x = 18 + r.below(hx::NORD - 18);
        auto many = [&] { return r.chance(1, 4) ? 500 + r.below(2000) : 260 + r.below(300); };
        for (Op &o : p.ops) { o.task = 0; o.code = focus[0]; o.a[0] = idxs[0]; o.a[1] = all[o.code]->arity < 2 ? 0 : idxs[1]; o.a[3] = 0; o.a[4] = many(); }
        if (r.chance(1, 2)) p.ops[1].a[4] = 0;
        if (r.chance(1, 2)) p.ops[0].a[3] = many(), p.ops[0].a[4] = 0;
    }
}
struct Ctx { Plan const *p; std::vector<uint64_t> const *ref; };

unsigned control_word() { unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); return (_mm_getcsr() & 0xffc0u) << 16 | cw; }
struct Environment { unsigned control = control_word(); std::terminate_handler term = std::get_terminate(); std::new_handler fresh = std::get_new_handler(); };
Environment &environment() { static Environment e; return e; }
void check_environment(Op const &o) {
    if (control_word() != environment().control) violation("environment", "the floating-point control word was changed by " + names[o.code]);
    if (std::get_terminate() != environment().term || std::get_new_handler() != environment().fresh) violation("environment", "the terminate or new handler was changed by " + names[o.code]);
    if (std::strcmp(std::setlocale(LC_ALL, nullptr), "C")) violation("environment", "the C locale was changed by " + names[o.code]);
    if (std::fegetround() != FE_TONEAREST) violation("environment", "the floating-point rounding mode was changed by " + names[o.code]);
    if (std::cout.flags() != (std::ios::skipws | std::ios::dec) || std::cerr.precision() != 6 || std::cout.precision() != 6 || std::clog.precision() != 6) violation("environment", "the formatting state of a standard stream was changed by " + names[o.code]);
    if (!(std::locale() == std::locale::classic())) violation("environment", "the global locale was changed by " + names[o.code]);
}
void body(int task, void *arg) {
    Ctx &c = *(Ctx *)arg;
    for (size_t i = 0; i < c.p->ops.size(); i++) {
        Op const &o = c.p->ops[i];
        if (o.task != task) continue;
        set_op((int)i);
        point(PT_OP);
        hx::Site const &s = *all[o.code];
        if (o.a[4]) {
            fired(F_CHURN);
            for (int k = 0; k < o.a[4]; k++) { int from = o.a[0] & 1 ? hx::NIDX : hx::NTIE, a[2] = { from + (o.a[0] * 37 + k) % 500, from + (o.a[1] * 53 + k * 3) % 500 }; s.run(hx::Args{ a, 0 }); if (k > 300 && out->steps > 1500000) break; }
        }
        if (o.a[5]) { scribble_stack(o.a[5]); fired(F_STACK_GARBAGE); }
        int reps = o.a[3] ? o.a[3] : 1;
        if (reps > 1) fired(F_REPEAT);
        fired(o.a[2] ? F_SHARED : F_LOCAL_REUSE);
        for (int k = 0; k < reps; k++) {
            uint64_t d = s.run(hx::Args{ o.a, o.a[2] });
            note_value(d);
            if (d != (*c.ref)[i]) violation("isolation", "call '" + names[o.code] + "' with operands " + std::to_string(o.a[0]) + "," + std::to_string(o.a[1]) + " gave another result than the same call alone in a fresh process");
            if (k > 400 && out->steps > 2500000) break;
        }
        check_environment(o);
    }
}
void exec(Plan const &p, std::vector<uint64_t> const &ref) {
    load();
    for (auto &o : p.ops) all[o.code]->prepare(hx::Args{ o.a, 0 });
    environment();
    Ctx c{ &p, &ref };
    fired(F_HEAP_GARBAGE);
    run_tasks(p.ntasks, body, &c, p.sched);
    out->faults[F_PREEMPT] += out->nswitch;
    out->faults[F_CLOCK] += clock_reads();
}
uint64_t op_key(Op const &o) { return mix(mix(mix(11, o.code), o.a[0]), o.a[1]) | 1; }
void reference(Op const &o) { load(); out->digest[0] = all[o.code]->run(hx::Args{ o.a, 0 }); }
std::string describe(Plan const &, Op const &o) {
    load();
    return names[o.code] + " operands " + std::to_string(o.a[0]) + "," + std::to_string(o.a[1]) + (o.a[2] ? " shared" : "") + (o.a[3] > 1 ? " x" + std::to_string(o.a[3]) : "") + (o.a[4] ? " after " + std::to_string(o.a[4]) + " other calls" : "");
}
std::string tag(Plan const &, Op const &o) { load(); return names[o.code]; }
}
sim::Workload const sim::workload = { "C01",
    { "shared const operands", "operand addresses reused with other values", "other calls of the operation before the call", "repetition of the call", "preemption at a scheduling point", "garbage in fresh and freed heap memory", "garbage in unused stack memory", "reads of (simulated) clocks and random sources by the library" },
    gen, exec, op_key, reference, describe, 1, tag, 1u << F_PREEMPT | 1u << F_HEAP_GARBAGE | 1u << F_STACK_GARBAGE | 1u << F_CLOCK };
