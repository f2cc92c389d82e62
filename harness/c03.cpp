// C03: traversals whose callbacks cancel, throw, re-enter, suspend and interleave with those of other threads.
#include "common.h"
#include "observe_site.h"
#include "visitjob.h"
#include <iostream>
#include <stdexcept>

namespace {
using namespace sim;
std::vector<hx::Site const *> all;
std::vector<std::string> names;
void load() {
    if (!all.empty()) return;
    for (auto &t : hx::tables()) for (hx::Site const *s = t.sites; s->name; s++) { all.push_back(s); names.push_back(std::string(t.name) + ": " + s->name); }
}
enum { F_CANCEL, F_TOGGLE, F_THROW, F_NEST_SAME, F_NEST_OTHER, F_NEST_ESCAPE, F_SHARED, F_PREEMPT, F_DIRTY };
enum Kind { K_NONE, K_CANCEL, K_TOGGLE, K_THROW_CUSTOM, K_THROW_INT, K_THROW_ALLOC, K_THROW_RUNTIME, K_CANCEL_THROW, K_NEST_SAME, K_NEST_OTHER, K_NEST_CANCEL, K_THROW_PTR, K_N };
constexpr int SUBKINDS = 8;                                  // kinds a nested traversal may have: those before K_NEST_SAME

hx::VisitJob *cur[MAXT + 1];
struct Frame { Op const *op; int depth; } frame[MAXT + 1];
std::string name_of_op() { return names[frame[self() + 1].op->code]; }

void gen(Rng &r, Plan &p, bool thorough) {
    load();
    swarm_schedule(r, p);
    if (r.chance(1, 2)) p.sched.p[PT_CB] = 8192 << r.below(3);
    p.ntasks = (int)(r.chance(4, 10) ? 1 : r.chance(7, 10) ? 2 : 3);
    int nfocus = 1 + r.below(4);
    std::vector<int> focus;
    for (int i = 0; i < nfocus; i++) focus.push_back(r.below(all.size()));
    int idxs[2] = { (int)r.below(hx::NORD), (int)r.below(hx::NORD) };
    if (r.chance(1, 10)) idxs[r.below(2)] = (int)r.below(hx::NIDX);
    int n = 1 + r.below(p.ntasks > 1 ? 8 : 6);
    if (thorough && r.chance(1, 10)) n += r.below(30);
    if (r.chance(1, 60)) {                                                             // a long history of few operations
        n = 40 + r.below(r.chance(1, 3) ? 260 : 60);
        nfocus = 1 + r.below(std::min(nfocus, 2));
        if (r.chance(1, 2)) p.ntasks = 1;
    }
    int faultiness = 1 + r.below(4);
    for (int i = 0; i < n; i++) {
        Op o;
        o.task = r.below(p.ntasks);
        o.code = focus[r.below(nfocus)];
        o.a[0] = idxs[r.below(2)]; o.a[1] = idxs[r.below(2)];
        o.a[2] = r.below(4);
        o.a[3] = r.below(4);                                 // kind of function object
        o.a[4] = (int)r.below(4) < faultiness ? r.below(K_N) : (int)K_NONE;
        o.a[5] = r.chance(1, 3) ? 0 : r.below(256);
        o.a[6] = r.below(SUBKINDS) | r.below(64) << 4 | r.below(4) << 10 | r.below(2) << 12;   // nested: kind, position, function object, lets exceptions through
        o.a[7] = focus[r.below(nfocus)];                     // nested: another site
        if (all[o.code]->arity < 2) { o.a[1] = 0; o.a[2] &= 1; }
        p.ops.push_back(o);
    }
}
void report(char const *cls, std::string const &what) { violation(cls, what + ": " + name_of_op() + (frame[self() + 1].depth ? " (in a traversal made by a callback)" : "")); }

// The traversal made by a callback: on the same object or on another one, with a plan of its own.
void nested_same(hx::VisitJob &outer) {
    Op const &o = *frame[self() + 1].op;
    hx::VisitJob j;
    j.kind = o.a[6] & 15; j.at = outer.want.empty() ? -1 : (o.a[6] >> 4 & 63) % (int)outer.want.size(); j.style = o.a[6] >> 10 & 3; j.id = 77;
    j.want = outer.want; j.object = outer.object;
    frame[self() + 1].depth++;
    outer.again(outer.object, j);
    frame[self() + 1].depth--;
    fired(F_NEST_SAME);
    if (j.exc && (o.a[6] >> 12 & 1)) { fired(F_NEST_ESCAPE); throw hx::InjectedFault(outer.id); }
}
void nested_other(hx::VisitJob &outer) {
    Op const &o = *frame[self() + 1].op;
    hx::VisitJob j;
    j.kind = o.a[6] & 15; j.at = o.a[6] >> 4 & 63; j.style = o.a[6] >> 10 & 3; j.id = 78;
    hx::VisitJob *was = cur[self() + 1];
    cur[self() + 1] = &j;
    frame[self() + 1].depth++;
    all[o.a[7]]->run(hx::Args{ o.a, 0 });
    frame[self() + 1].depth--;
    cur[self() + 1] = was;
    fired(F_NEST_OTHER);
    if (j.exc && (o.a[6] >> 12 & 1)) { fired(F_NEST_ESCAPE); throw hx::InjectedFault(outer.id); }
}
struct Ctx { Plan const *p; };
void body(int task, void *arg) {
    Ctx &c = *(Ctx *)arg;
    for (size_t i = 0; i < c.p->ops.size(); i++) {
        Op const &o = c.p->ops[i];
        if (o.task != task) continue;
        set_op((int)i);
        point(PT_OP);
        snprintf(out->note, sizeof out->note, "task %d in traversal '%s'", task, names[o.code].c_str());
        hx::VisitJob j;
        j.kind = o.a[4]; j.at = o.a[4] ? o.a[5] : -1; j.style = o.a[3]; j.id = 500 + (int)i;
        if (j.kind == K_NEST_SAME || j.kind == K_NEST_CANCEL) j.nested = nested_same;
        if (j.kind == K_NEST_OTHER) j.nested = nested_other;
        cur[self() + 1] = &j;
        frame[self() + 1] = Frame{ &o, 0 };
        if (o.a[2]) fired(F_SHARED);
        if (o.a[5] & 1) { scribble_stack(o.a[5]); fired(F_DIRTY); }
        uint64_t d = all[o.code]->run(hx::Args{ o.a, o.a[2] });
        note_value(d); note_value(j.seen.size() * 4 + j.result * 2 + (j.exc != nullptr));
        for (auto &v : j.seen) note_value(v.blade ^ v.value);
    }
}
void exec(Plan const &p, std::vector<uint64_t> const &) {
    load();
    std::clog.rdbuf(nullptr);
    for (auto &o : p.ops) all[o.code]->prepare(hx::Args{ o.a, 0 });
    Ctx c{ &p };
    run_tasks(p.ntasks, body, &c, p.sched);
    out->faults[F_PREEMPT] += out->nswitch;
}
std::string describe(Plan const &, Op const &o) {
    load();
    static char const *const kn[K_N] = { "to the end", "cancels", "cancels, then changes its mind", "throws", "throws int", "throws bad_alloc", "throws runtime_error", "cancels and throws", "traverses the same expression", "traverses another expression", "traverses the same expression and cancels", "throws a pointer" };
    return names[o.code] + " operands " + std::to_string(o.a[0]) + "," + std::to_string(o.a[1]) + (o.a[2] ? " (shared)" : "") + ": callback " + kn[o.a[4]] + " at call " + std::to_string(o.a[5]) + " (modulo the number of components), function object kind " + std::to_string(o.a[3]) + ", nested plan " + std::to_string(o.a[6]) + (o.a[4] == K_NEST_OTHER ? " on " + names[o.a[7]] : std::string());
}
std::string tag(Plan const &, Op const &o) { load(); return names[o.code]; }
int the_pointee;
}
namespace hx {
VisitJob &vjob() { return *cur[sim::self() + 1]; }
void dead_function_object() { report("dead-function-object", "the traversal used a function object after it had been destroyed or moved from"); }
void zero_wrong(bool got) { report("is-zero", std::string("is_zero() returned ") + (got ? "true" : "false")); }
void on_visit(VisitJob &j, Visit const &v, int calls, bool &keep) {
    sim::point(sim::PT_CB);
    if (!keep) j.preset_wrong = true;
    int n = (int)j.seen.size();
    j.seen.push_back(v);
    if (calls != n + 1) j.state_wrong++;
    if (n > (int)j.want.size() + 64) report("sequence", "the callback is called without end");
    if (j.returned || j.exc) report("late-call", "the callback was called after the traversal had ended");
    if (n == j.at) {
        switch ((Kind)j.kind) {
        case K_CANCEL: keep = false; fired(F_CANCEL); break;
        case K_TOGGLE: keep = false; sim::point(sim::PT_CB); keep = true; fired(F_TOGGLE); break;
        case K_THROW_CUSTOM: fired(F_THROW); throw InjectedFault(j.id);
        case K_THROW_INT: fired(F_THROW); throw int(j.id);
        case K_THROW_ALLOC: fired(F_THROW); throw std::bad_alloc();
        case K_THROW_RUNTIME: fired(F_THROW); throw std::runtime_error("callback " + std::to_string(j.id));
        case K_CANCEL_THROW: keep = false; fired(F_THROW); throw InjectedFault(j.id);
        case K_THROW_PTR: fired(F_THROW); throw &the_pointee;
        case K_NEST_SAME: case K_NEST_OTHER: j.nested(j); break;
        case K_NEST_CANCEL: j.nested(j); keep = false; fired(F_CANCEL); break;
        default: break;
        }
    }
    sim::point(sim::PT_CB);
}
void classify(VisitJob &j) {
    try { throw; }
    catch (InjectedFault const &e) { j.exc = "custom"; if (e.id != j.id) j.what = "another exception object"; }
    catch (int v) { j.exc = "int"; if (v != j.id) j.what = "another value"; }
    catch (std::bad_alloc const &) { j.exc = "bad_alloc"; }
    catch (std::runtime_error const &e) { j.exc = "runtime"; j.what = e.what() == "callback " + std::to_string(j.id) ? "" : std::string("another text: ") + e.what(); }
    catch (int *p) { j.exc = "pointer"; if (p != &the_pointee) j.what = "another pointer"; }
    catch (std::exception const &e) { j.exc = "other"; j.what = typeid(e).name(); }
    catch (...) { j.exc = "unknown"; j.what = "unknown"; }
}
void check_visit(VisitJob &j) {
    bool hit = j.at >= 0 && j.at < (int)j.want.size();
    char const *exc = nullptr;
    bool cancel = false;
    if (hit) switch ((Kind)j.kind) {
    case K_CANCEL: cancel = true; break;
    case K_NEST_CANCEL: cancel = true; break;
    case K_THROW_CUSTOM: case K_CANCEL_THROW: exc = "custom"; break;
    case K_THROW_INT: exc = "int"; break;
    case K_THROW_ALLOC: exc = "bad_alloc"; break;
    case K_THROW_RUNTIME: exc = "runtime"; break;
    case K_THROW_PTR: exc = "pointer"; break;
    default: break;
    }
    // an exception let through by a nested traversal replaces what the outer callback would have done
    if (hit && j.nested && j.exc) { Op const &o = *frame[sim::self() + 1].op; if (o.a[6] >> 12 & 1) { exc = "custom"; cancel = false; } }
    size_t n = exc || cancel ? (size_t)j.at + 1 : j.want.size();
    if (j.preset_wrong) report("keep-going", "keep_going was not true when the callback was called");
    auto show = [](Visit const &v) { double d; std::memcpy(&d, &v.value, 8); return "(blade " + std::to_string(v.blade) + ", value " + std::to_string(d) + ", sources " + std::to_string(v.bsrc) + "," + std::to_string(v.vsrc) + ")"; };
    for (size_t i = 0; i < j.seen.size() && i < j.want.size(); i++) {
        Visit const &s = j.seen[i], &w = j.want[i];
        if (s.blade != w.blade || s.value != w.value || s.bsrc != w.bsrc || s.vsrc != w.vsrc) report("sequence", "call " + std::to_string(i) + " of the callback was given " + show(s) + " instead of " + show(w));
    }
    if (j.seen.size() != n) report("sequence", "the callback was called " + std::to_string(j.seen.size()) + " times instead of " + std::to_string(n));
    if (exc) {
        if (!j.exc) report("exception-lost", "the exception thrown by the callback did not reach the caller");
        if (strcmp(j.exc, exc) || !j.what.empty()) report("exception-lost", std::string("another exception reached the caller: ") + j.exc + " " + j.what);
    }
    else {
        if (j.exc) report("spurious-exception", std::string("an exception left the traversal: ") + j.exc + " " + j.what);
        if (!j.returned) report("spurious-exception", "the traversal did not return");
        if (j.result == cancel) report("result", std::string("the traversal returned ") + (j.result ? "true" : "false"));
    }
    if (j.state_wrong) report("function-object", "the calls were not all made on one function object: its state was lost between calls");
}
}
sim::Workload const sim::workload = { "C03",
    { "callback cancels", "callback cancels and changes its mind", "callback throws", "callback traverses the same expression", "callback traverses another expression", "exception of a nested traversal let through", "expression shared with other tasks", "preemption at a scheduling point", "garbage in unused stack memory" },
    gen, exec, nullptr, nullptr, describe, 1, tag, 1u << F_PREEMPT | 1u << F_DIRTY };
