// C04: the one-time warnings of implicit conversions, with many first conversions at the same time and a std::clog
// that works, is slow, fails or throws. Every run is a fresh process.
#include "common.h"
#include "copyjob.h"
#include "observe_site.h"
#include <algorithm>
#include <iostream>
#include <map>
#include <set>

namespace {
using namespace sim;
std::vector<hx::Site const *> all;
std::vector<std::string> names;
std::vector<std::vector<int> > conv;                        // methods of a site that convert between different types
std::vector<int> converting;
std::map<uint64_t, std::vector<std::pair<int, int> > > same_kind;    // sites and methods that make the same kind of conversion
uint64_t kind_of(int site, int method) {
    int a[NARG] = {};
    hx::CopyJob &j = hx::cjob(); j = hx::CopyJob(); j.query = true; j.method = method;
    all[site]->run(hx::Args{ a, 0 });
    uint64_t k = j.kind;
    j = hx::CopyJob();
    return k;
}
void load() {
    if (!all.empty()) return;
    for (auto &t : hx::tables()) for (hx::Site const *s = t.sites; s->name; s++) { all.push_back(s); names.push_back(std::string(t.name) + ": " + s->name); }
    conv.resize(all.size());
    for (size_t i = 0; i < all.size(); i++) {
        for (int m = 0; m < hx::CM_N; m++) if (uint64_t k = kind_of((int)i, m)) { conv[i].push_back(m); same_kind[k].push_back({ (int)i, m }); }
        if (!conv[i].empty()) converting.push_back((int)i);
    }
}
enum { F_SHORT, F_THROW, F_THROW_INT, F_SYNC, F_SYNC_THROW, F_SLOW, F_NOBUF, F_BAD, F_MASK, F_RECOVER, F_REJECT, F_FIRST_RACE, F_PREEMPT, F_WRITTEN, F_REENTER };
enum Mode { D_OK, D_SLOW, D_SHORT, D_THROW, D_THROW_INT, D_SYNC, D_SYNC_THROW, D_NOBUF, D_BAD, D_REENTER, D_N };
bool works_always(int mode) { return mode <= D_SLOW || mode == D_REENTER; }
void convert_again();
constexpr int RECOVER = -1;
char const *const mode_names[D_N] = { "works", "is slow", "accepts only part", "throws", "throws an int", "cannot flush", "throws when flushing", "has no buffer", "has failed before", "makes the same conversion itself" };
char const *const method_names[hx::CM_N] = { "checked_trivial_copy", "checked_trivial_copy with a tolerance", "trivial_copy", "implicit conversion of a const lvalue", "implicit conversion of an rvalue", "conversion of a non-const lvalue", "conversion of an argument", "assignment through a conversion", "conversion into a container", "conversion of a returned value", "copy of an expression to itself" };

struct Segment { int task, op; std::string text; };
struct World {
    std::vector<Segment> seg;
    int mode = D_OK; long left = 0; int calls = 0;
    Plan const *plan = nullptr;
    std::vector<uint64_t> kinds;                            // of each op
    bool in[MAXT + 1] = {};
} *w;
int op_of[MAXT + 1];
void accept(char const *s, std::streamsize n) {
    if (n <= 0) return;
    w->seg.push_back(Segment{ self(), self() < 0 ? -1 : op_of[self() + 1], std::string(s, n) });
}
struct Device : std::streambuf {
    std::streamsize put(char const *s, std::streamsize n) {
        point(PT_IO);
        int m = w->mode;
        if (m == D_SLOW) { fired(F_SLOW); for (int i = 0; i < 12; i++) point(PT_IO); }
        if (m == D_SHORT && n > w->left) { std::streamsize k = w->left; w->left = 0; fired(F_SHORT); accept(s, k); point(PT_IO); return k; }
        if (m == D_SHORT) w->left -= n;
        if (m == D_THROW && w->left-- <= 0) { fired(F_THROW); throw hx::InjectedFault(4); }
        if (m == D_THROW_INT && w->left-- <= 0) { fired(F_THROW_INT); throw int(4); }
        accept(s, n);
        point(PT_IO);
        if (m == D_REENTER) convert_again();
        return n;
    }
    std::streamsize xsputn(char const *s, std::streamsize n) override { return put(s, n); }
    int_type overflow(int_type c) override { if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c); char ch = (char)c; return put(&ch, 1) == 1 ? c : traits_type::eof(); }
    int sync() override {
        point(PT_IO);
        if (w->mode == D_SYNC) { fired(F_SYNC); return -1; }
        if (w->mode == D_SYNC_THROW) { fired(F_SYNC_THROW); throw hx::InjectedFault(5); }
        return 0;
    }
};
void convert_again() {                                      // a device that uses the library for what it does
    static bool inside[MAXT + 1];
    bool &in = inside[self() + 1];
    if (in || self() < 0) return;
    in = true;
    Op const &o = w->plan->ops[op_of[self() + 1]];
    hx::CopyJob outer = hx::cjob();
    hx::cjob() = hx::CopyJob();
    hx::cjob().method = o.a[2]; hx::cjob().fill = o.a[4]; hx::cjob().init = o.a[7]; hx::cjob().id = outer.id;
    fired(F_REENTER);
    all[o.code]->run(hx::Args{ o.a, 0 });
    hx::cjob() = outer;
    in = false;
}
struct Elsewhere : std::streambuf {
    char const *name; explicit Elsewhere(char const *n) : name(n) {}
    std::streamsize xsputn(char const *, std::streamsize) override { violation("elsewhere", std::string("something was written to std::") + name); }
    int_type overflow(int_type) override { violation("elsewhere", std::string("something was written to std::") + name); }
};

void gen(Rng &r, Plan &p, bool thorough) {
    load();
    swarm_schedule(r, p);
    if (r.chance(1, 2)) p.sched.p[PT_ATOMIC] = 32768;
    if (r.chance(1, 2)) p.sched.p[PT_IO] = 32768;
    p.ntasks = (int)(r.chance(2, 10) ? 1 : 2 + r.below(4));
    p.knob[0] = r.chance(1, 2) ? (int)D_OK : (int)r.below(D_N);
    p.knob[1] = r.chance(1, 2) ? 0 : r.below(8);            // exceptions of std::clog
    p.knob[2] = r.chance(1, 3) ? r.below(4) : r.below(400); // bytes (or calls) before the failure
    if (p.knob[0] == D_THROW || p.knob[0] == D_THROW_INT) p.knob[2] = r.below(4);
    int nkinds = 1 + r.below(3);
    std::vector<std::vector<std::pair<int, int> > > focus;
    for (int i = 0; i < nkinds; i++) { int s = r.pick(converting); focus.push_back(same_kind[kind_of(s, r.pick(conv[s]))]); }
    if (r.chance(1, 3)) {                                   // two kinds that differ only in copy or move, or in one type
        int s = r.pick(converting);
        focus.clear();
        for (int i = 0; i < 2; i++) focus.push_back(same_kind[kind_of(s, r.pick(conv[s]))]);
        focus.push_back(same_kind[kind_of(converting[(size_t)(std::find(converting.begin(), converting.end(), s) - converting.begin() + 1) % converting.size()], hx::CM_IMPL_COPY)]);
    }
    int n = 1 + p.ntasks + r.below(6);
    if (thorough && r.chance(1, 10)) n += r.below(30);
    bool first = r.chance(1, 2);
    for (int i = 0; i < n; i++) {
        Op o;
        o.task = first && i < p.ntasks ? i : r.below(p.ntasks);
        if (p.knob[0] != D_OK && r.chance(1, 10)) { o.code = RECOVER; p.ops.push_back(o); continue; }
        auto &f = first && i < p.ntasks && r.chance(2, 3) ? focus[0] : r.pick(focus);
        auto sm = r.pick(f);
        o.code = sm.first;
        o.a[0] = r.below(hx::NORD);
        o.a[2] = sm.second;
        if (r.chance(1, 12)) o.a[2] = r.below(2);            // an explicit copy, which must not warn
        o.a[4] = r.chance(1, 4) ? 0 : 1 + r.below(400);
        o.a[7] = r.below(hx::NORD);
        p.ops.push_back(o);
    }
}
std::string describe(Plan const &p, Op const &o) {
    load();
    if (o.code == RECOVER) return "std::clog works again";
    return names[o.code] + " operand " + std::to_string(o.a[0]) + " by " + method_names[o.a[2]] + ", values " + std::to_string(o.a[4]) + " (std::clog " + mode_names[p.knob[0]] + ", exceptions " + std::to_string(p.knob[1]) + ")";
}
std::string name_of_op[MAXT + 1];
std::ios_base::iostate mask_of(int k) { std::ios_base::iostate m{}; if (k & 1) m |= std::ios_base::badbit; if (k & 2) m |= std::ios_base::failbit; if (k & 4) m |= std::ios_base::eofbit; return m; }
struct Ctx { Plan const *p; Device *dev; };
bool wrote_line(uint64_t kind) { for (auto &s : w->seg) if (s.op >= 0 && w->kinds[s.op] == kind && s.text.find('\n') != std::string::npos) return true; return false; }
void body(int task, void *arg) {
    Ctx &c = *(Ctx *)arg;
    for (size_t i = 0; i < c.p->ops.size(); i++) {
        Op const &o = c.p->ops[i];
        if (o.task != task) continue;
        set_op((int)i);
        point(PT_OP);
        op_of[self() + 1] = (int)i;
        if (o.code == RECOVER) {
            w->mode = D_OK;
            try { std::clog.rdbuf(c.dev); std::clog.clear(); } catch (...) {}
            fired(F_RECOVER);
            continue;
        }
        snprintf(out->note, sizeof out->note, "task %d in copy '%s'", task, names[o.code].c_str());
        hx::CopyJob &j = hx::cjob();
        j = hx::CopyJob();
        j.method = o.a[2]; j.fill = o.a[4]; j.init = o.a[7]; j.id = 900 + (int)i;
        name_of_op[self() + 1] = names[o.code] + ", " + method_names[o.a[2]];
        for (int t = 1; t <= MAXT; t++) if (t != self() + 1 && w->in[t] && w->kinds[op_of[t]] && w->kinds[op_of[t]] == w->kinds[i]) fired(F_FIRST_RACE);
        w->in[self() + 1] = true;
        uint64_t d = all[o.code]->run(hx::Args{ o.a, 0 });
        w->in[self() + 1] = false;
        if (j.rejected) fired(F_REJECT);
        note_value(d);
        if (c.p->ntasks == 1 && works_always(c.p->knob[0]) && w->kinds[i] && !wrote_line(w->kinds[i])) violation("missing", "the first conversion of its kind wrote no warning: " + name_of_op[self() + 1]);
    }
}
void exec(Plan const &p, std::vector<uint64_t> const &) {
    load();
    static World world; w = &world; world.plan = &p;
    for (auto &o : p.ops) if (o.code != RECOVER) { world.kinds.push_back(kind_of(o.code, o.a[2])); all[o.code]->prepare(hx::Args{ o.a, 0 }); } else world.kinds.push_back(0);
    world.mode = p.knob[0]; world.left = p.knob[2];
    static Device dev; static Elsewhere e1("cerr"), e2("cout");
    std::clog.rdbuf(&dev); std::cerr.rdbuf(&e1); std::cout.rdbuf(&e2);
    if (world.mode == D_NOBUF) { std::clog.rdbuf(nullptr); fired(F_NOBUF); }
    if (world.mode == D_BAD) { std::clog.setstate(p.knob[2] & 1 ? std::ios_base::badbit : std::ios_base::failbit); fired(F_BAD); }
    try { std::clog.exceptions(mask_of(p.knob[1])); } catch (...) {}
    if (p.knob[1]) fired(F_MASK);
    auto flags = std::clog.flags();
    Ctx c{ &p, &dev };
    run_tasks(p.ntasks, body, &c, p.sched);
    out->faults[F_PREEMPT] += out->nswitch;
    // what std::clog received
    auto opname = [&](int i) { return i < 0 ? std::string("no call") : names[p.ops[i].code] + ", " + method_names[p.ops[i].a[2]]; };
    if (std::clog.flags() != flags || std::clog.width() != 0) violation("format", "the formatting state of std::clog was changed");
    bool works = works_always(p.knob[0]);
    std::map<uint64_t, std::map<int, std::string> > got;
    int open = -1;
    for (auto &s : world.seg) {
        if (s.op < 0 || !world.kinds[s.op]) violation("unexpected", "a call that converts nothing implicitly wrote to std::clog: " + opname(s.op));
        if (works && open >= 0 && open != s.op) violation("mixed-lines", "the lines of two conversions are mixed: " + opname(open) + " and " + opname(s.op));
        open = s.text.back() == '\n' ? -1 : s.op;
        got[world.kinds[s.op]][s.op] += s.text;
        note_value(hash_bytes(s.text.data(), s.text.size()));
    }
    for (auto &g : got) {
        int lines = 0;
        for (auto &a : g.second) {
            size_t nl = a.second.find('\n');
            if (nl != std::string::npos && nl + 1 != a.second.size()) violation("not-one-line", "a warning is not one line: " + opname(a.first) + ": " + a.second);
            if (works && nl == std::string::npos) violation("not-one-line", "a warning has no end of line: " + opname(a.first) + ": " + a.second);
            if (works && a.second.size() < 2) violation("not-one-line", "a warning is empty: " + opname(a.first));
            if (nl != std::string::npos) { lines++; fired(F_WRITTEN); }
        }
        if (lines > 1) violation("repeated", "the warning was written " + std::to_string(lines) + " times for one kind of conversion: " + opname(g.second.begin()->first));
    }
    if (works) for (size_t i = 0; i < p.ops.size(); i++) if (world.kinds[i] && !got.count(world.kinds[i])) violation("missing", "no conversion of its kind wrote a warning: " + opname((int)i));
}
std::string tag(Plan const &p, Op const &o) { load(); return o.code == RECOVER ? "std::clog works again" : names[o.code]; }
}
namespace hx {
void copy_report(char const *cls, std::string const &what) { sim::violation(cls, what + ": " + name_of_op[sim::self() + 1]); }
void copy_phase(int) {}
}
sim::Workload const sim::workload = { "C04",
    { "std::clog accepts only part of the line", "the buffer of std::clog throws", "the buffer of std::clog throws an int", "flushing std::clog fails", "flushing std::clog throws", "std::clog is slow", "std::clog has no buffer", "std::clog has failed before", "exceptions enabled in std::clog", "std::clog recovers", "conversion rejected", "conversions of one kind at the same time", "preemption at a scheduling point", "warnings written", "the device of std::clog makes the conversion itself" },
    gen, exec, nullptr, nullptr, describe, 1, tag, 1u << F_PREEMPT | 1u << F_WRITTEN };
