// C05: copies between expressions, interrupted at every point and interleaved.
#include "common.h"
#include "copyjob.h"
#include "observe_site.h"
#include <iostream>

namespace {
using namespace sim;
std::vector<hx::Site const *> all;
std::vector<std::string> names;
std::vector<int> failing, methods;
void load() {
    if (!all.empty()) return;
    for (auto &t : hx::tables()) for (hx::Site const *s = t.sites; s->name; s++) { all.push_back(s); names.push_back(std::string(t.name) + ": " + s->name); }
    int a[NARG] = {};
    for (size_t i = 0; i < all.size(); i++) {
        hx::CopyJob &j = hx::cjob(); j = hx::CopyJob(); j.query = true;
        all[i]->run(hx::Args{ a, 0 });
        methods.push_back(j.methods);
        if (j.can_fail) failing.push_back((int)i);
    }
    hx::cjob() = hx::CopyJob();
}
enum { F_BADALLOC, F_CUSTOM, F_INT, F_REJECT, F_LOSSY, F_RETRY, F_SHARED, F_PREEMPT, F_DIRTY, F_DONE };
char const *const method_names[hx::CM_N] = { "checked_trivial_copy", "checked_trivial_copy with a tolerance", "trivial_copy", "implicit conversion of a const lvalue", "implicit conversion of an rvalue", "conversion of a non-const lvalue", "conversion of an argument", "assignment through a conversion", "conversion into a container", "conversion of a returned value", "copy of an expression to itself" };

void gen(Rng &r, Plan &p, bool thorough) {
    load();
    swarm_schedule(r, p);
    if (r.chance(1, 2)) p.sched.p[PT_COEF] = 1024 << r.below(5);
    p.ntasks = (int)(r.chance(4, 10) ? 1 : r.chance(7, 10) ? 2 : 3);
    int nfocus = 1 + r.below(5);
    std::vector<int> focus;
    for (int i = 0; i < nfocus; i++) focus.push_back(r.chance(3, 4) ? r.pick(failing) : r.below(all.size()));
    int idxs[2] = { (int)r.below(hx::NORD), (int)r.below(hx::NORD) };
    int n = 1 + r.below(p.ntasks > 1 ? 7 : 8);
    if (thorough && r.chance(1, 10)) n += r.below(30);
    if (r.chance(1, 60)) {                                                             // a long history of few operations
        n = 40 + r.below(r.chance(1, 3) ? 260 : 60);
        nfocus = 1 + r.below(std::min(nfocus, 2));
        if (r.chance(1, 2)) p.ntasks = 1;
    }
    int faultiness = r.below(4);
    for (int i = 0; i < n; i++) {
        Op o;
        o.task = r.below(p.ntasks);
        o.code = focus[r.below(nfocus)];
        o.a[0] = idxs[r.below(2)];
        o.a[1] = r.chance(1, 4);
        do o.a[2] = r.below(hx::CM_N); while (!(methods[o.code] >> o.a[2] & 1));
        o.a[3] = r.below(hx::NTOL);
        o.a[4] = r.chance(1, 5) ? 0 : 1 + r.below(400);
        if ((int)r.below(4) < faultiness) { o.a[5] = 1 + r.below(r.chance(1, 2) ? 6 : 30); o.a[6] = 1 + r.below(3); }
        o.a[7] = r.below(hx::NORD);
        if (o.a[2] == hx::CM_IMPL_MOVE || o.a[2] == hx::CM_IMPL_NONCONST) o.a[1] = 0;
        p.ops.push_back(o);
    }
}
std::string name_of_op[MAXT + 1];
struct Ctx { Plan const *p; };
std::string describe(Plan const &, Op const &o) {
    load();
    static char const *const fk[] = { "", "bad_alloc", "a class", "an int" };
    return names[o.code] + " operand " + std::to_string(o.a[0]) + (o.a[1] ? " (shared)" : "") + " by " + method_names[o.a[2]] + ", tolerance " + std::to_string(o.a[3]) + ", values " + std::to_string(o.a[4]) + (o.a[5] ? std::string(", coefficient copy ") + std::to_string(o.a[5]) + " throws " + fk[o.a[6]] : "");
}
void body(int task, void *arg) {
    Ctx &c = *(Ctx *)arg;
    for (size_t i = 0; i < c.p->ops.size(); i++) {
        Op const &o = c.p->ops[i];
        if (o.task != task) continue;
        set_op((int)i);
        point(PT_OP);
        snprintf(out->note, sizeof out->note, "task %d in copy '%s'", task, names[o.code].c_str());
        hx::CopyJob &j = hx::cjob();
        j = hx::CopyJob();
        j.method = o.a[2]; j.tol = o.a[3]; j.fill = o.a[4]; j.at = o.a[5]; j.fault = o.a[6]; j.init = o.a[7]; j.id = 900 + (int)i;
        name_of_op[self() + 1] = names[o.code] + ", " + method_names[o.a[2]];
        if (o.a[1]) fired(F_SHARED);
        if (o.a[4] & 1) { scribble_stack(o.a[4] & 255); fired(F_DIRTY); }
        long live = hx::live_objects_of_task();
        uint64_t d = all[o.code]->run(hx::Args{ o.a, o.a[1] });
        if (hx::live_objects_of_task() != live) violation("leak", "coefficients made by the call were never destroyed: " + name_of_op[self() + 1]);
        if (j.interrupted) fired(F_BADALLOC + o.a[6] - 1);
        note_value(d);
    }
}
void exec(Plan const &p, std::vector<uint64_t> const &) {
    load();
    std::clog.rdbuf(nullptr);
    for (auto &o : p.ops) all[o.code]->prepare(hx::Args{ o.a, 0 });
    Ctx c{ &p };
    run_tasks(p.ntasks, body, &c, p.sched);
    out->faults[F_PREEMPT] += out->nswitch;
}
std::string tag(Plan const &, Op const &o) { load(); return names[o.code]; }
}
namespace hx {
void copy_report(char const *cls, std::string const &what) { sim::violation(cls, what + ": " + name_of_op[sim::self() + 1]); }
void copy_phase(int w) { switch (w) { case CP_REJECT: sim::fired(F_REJECT); break; case CP_ACCEPT_LOSSY: sim::fired(F_LOSSY); break; case CP_RETRY: sim::fired(F_RETRY); break; case CP_DONE: sim::fired(F_DONE); break; default: break; } }
}
sim::Workload const sim::workload = { "C05",
    { "coefficient copy fails with bad_alloc", "coefficient copy throws a class", "coefficient copy throws an int", "copy rejected (a component above the tolerance)", "components within the tolerance dropped", "copy repeated after it had been interrupted or rejected", "source shared with other tasks", "preemption at a scheduling point", "garbage in unused stack memory", "copies made" },
    gen, exec, nullptr, nullptr, describe, 1, tag, 1u << F_PREEMPT | 1u << F_DIRTY | 1u << F_DONE };
