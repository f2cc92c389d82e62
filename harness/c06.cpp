// C06: lazy contexts are made, carried around while other things happen, and evaluated, possibly by several tasks.
#include "common.h"
#include "lazyjob.h"
#include "observe_site.h"
#include <iostream>

namespace {
using namespace sim;
constexpr int LIDX = 6;                                    // as in calls_lazy.h
std::vector<hx::Site const *> all;
std::vector<std::string> names;
void load() {
    if (!all.empty()) return;
    for (auto &t : hx::tables()) for (hx::Site const *s = t.sites; s->name; s++) { all.push_back(s); names.push_back(std::string(t.name) + ": " + s->name); }
}
enum { F_MODIFIED, F_GONE, F_STACK, F_HEAP, F_CARRIED, F_SHARED, F_REPEAT, F_TEMP, F_PREEMPT, F_EVAL, F_FAILED };
char const *const given_names[hx::GV_N] = { "lvalues", "temporaries", "lvalues and temporaries" };
char const *const carry_names[hx::CR_N] = { "used where it was made", "returned", "copied", "moved", "on the heap", "captured by a lambda", "in a vector", "in a tuple", "shared between tasks", "two at once" };

void gen(Rng &r, Plan &p, bool thorough) {
    load();
    swarm_schedule(r, p);
    if (r.chance(1, 2)) p.sched.p[PT_COEF] = 1024 << r.below(5);
    p.ntasks = (int)(r.chance(4, 10) ? 1 : r.chance(7, 10) ? 2 : 3);
    int nfocus = 1 + r.below(4);
    std::vector<int> focus;
    for (int i = 0; i < nfocus; i++) focus.push_back(r.below(all.size()));
    int idxs[2] = { (int)r.below(LIDX), (int)r.below(LIDX) };
    int shared = r.below(4);                               // how common shared contexts are in this run
    int n = 1 + r.below(p.ntasks > 1 ? 7 : 6);
    if (thorough && r.chance(1, 10)) n += r.below(30);
    if (r.chance(1, 60)) {                                                             // a long history of few operations
        n = 40 + r.below(r.chance(1, 3) ? 260 : 60);
        nfocus = 1 + r.below(std::min(nfocus, 2));
        if (r.chance(1, 2)) p.ntasks = 1;
    }
    for (int i = 0; i < n; i++) {
        Op o;
        o.task = r.below(p.ntasks);
        o.code = focus[r.below(nfocus)];
        for (int k = 0; k < all[o.code]->arity; k++) o.a[k] = idxs[r.below(2)];
        o.a[3] = r.below(hx::GV_N);
        o.a[4] = (int)r.below(4) < shared ? (int)hx::CR_SHARED : (int)r.below(hx::CR_N);
        o.a[5] = r.below(8);
        o.a[6] = r.below(256);
        o.a[7] = 1 + r.below(3);
        p.ops.push_back(o);
    }
}
std::string name_of_op[MAXT + 1];
hx::LazyJob jobs[MAXT + 1];
std::string describe(Plan const &, Op const &o) {
    load();
    return names[o.code] + " inputs " + std::to_string(o.a[0]) + "," + std::to_string(o.a[1]) + "," + std::to_string(o.a[2]) + " given as " + given_names[o.a[3]] + ", " + carry_names[o.a[4]] + (o.a[5] & 1 ? ", inputs modified" : "") + (o.a[5] & 2 ? ", inputs destroyed" : "") + (o.a[5] & 4 ? ", original destroyed first" : "") + ", evaluated " + std::to_string(o.a[7]) + " times";
}
struct Ctx { Plan const *p; };
void body(int task, void *arg) {
    Ctx &c = *(Ctx *)arg;
    for (size_t i = 0; i < c.p->ops.size(); i++) {
        Op const &o = c.p->ops[i];
        if (o.task != task) continue;
        set_op((int)i);
        point(PT_OP);
        snprintf(out->note, sizeof out->note, "task %d in lazy evaluation '%s', %s", task, names[o.code].c_str(), carry_names[o.a[4]]);
        hx::LazyJob &j = hx::ljob();
        j = hx::LazyJob();
        j.given = o.a[3]; j.carry = o.a[4]; j.story = o.a[5]; j.salt = o.a[6]; j.repeats = o.a[7];
        name_of_op[self() + 1] = names[o.code] + " inputs " + std::to_string(o.a[0]) + "," + std::to_string(o.a[1]) + "," + std::to_string(o.a[2]) + ", " + given_names[o.a[3]] + ", " + carry_names[o.a[4]];
        if (o.a[4] == hx::CR_SHARED) fired(F_SHARED); else if (o.a[4] != hx::CR_HERE) fired(F_CARRIED);
        if (o.a[3] != hx::GV_LVALUES && o.a[4] != hx::CR_SHARED && o.a[4] != hx::CR_NESTED) fired(F_TEMP);
        long live = hx::live_objects_of_task();
        uint64_t d = all[o.code]->run(hx::Args{ o.a, 0 });
        if (hx::live_objects_of_task() != live) violation("leak", "coefficients made by the context were never destroyed: " + name_of_op[self() + 1]);
        note_value(d);
    }
}
void exec(Plan const &p, std::vector<uint64_t> const &) {
    load();
    std::clog.rdbuf(nullptr);
    for (auto &o : p.ops) all[o.code]->prepare(hx::Args{ o.a, 0 });
    scribble_stack(p.sched.stack_fill, 32);
    Ctx c{ &p };
    run_tasks(p.ntasks, body, &c, p.sched);
    out->faults[F_PREEMPT] += out->nswitch;
}
std::string tag(Plan const &, Op const &o) { load(); return names[o.code]; }
}
namespace hx {
LazyJob &ljob() { return jobs[sim::self() + 1]; }
void lazy_report(char const *cls, std::string const &what) { sim::violation(cls, what + ": " + name_of_op[sim::self() + 1]); }
void lazy_between(int round) {
    LazyJob &j = ljob();
    if (j.salt & 1) { sim::scribble_stack((unsigned)(j.salt * 7 + round), 16); sim::fired(F_STACK); }
    if (j.salt & 2) {
        void *b[16];
        for (int i = 0; i < 16; i++) { std::size_t n = 8u << (i % 7); b[i] = ::operator new(n); std::memset(b[i], j.salt * 13 + i + round, n); }
        for (int i = 0; i < 16; i++) ::operator delete(b[i]);
        sim::fired(F_HEAP);
    }
    sim::point(sim::PT_CB);
}
void lazy_done(int w) { sim::fired(w == LZ_GONE ? F_GONE : w == LZ_MODIFIED ? F_MODIFIED : w == LZ_REPEAT ? F_REPEAT : w == LZ_FAILED ? F_FAILED : F_EVAL); }
}
sim::Workload const sim::workload = { "C06",
    { "inputs modified before the evaluation", "inputs destroyed before the evaluation", "garbage in unused stack memory before the evaluation", "freed memory reused before the evaluation", "context carried elsewhere", "context shared with other tasks", "evaluated again", "inputs given as temporaries", "preemption at a scheduling point", "evaluations", "a copy of a context fails in the middle" },
    gen, exec, nullptr, nullptr, describe, 1, tag, 1u << F_PREEMPT | 1u << F_EVAL | 1u << F_REPEAT };
