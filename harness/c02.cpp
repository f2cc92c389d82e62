// C02: writing expressions to streams that stall, accept part of the data, fail, throw or recover.
#include "common.h"
#include "observe_site.h"
#include "writejob.h"
#include <iostream>
#include <locale>
#include <streambuf>

namespace {
using namespace sim;
std::vector<hx::Site const *> all;
std::vector<std::string> names;
void load() {
    if (!all.empty()) return;
    for (auto &t : hx::tables()) for (hx::Site const *s = t.sites; s->name; s++) { all.push_back(s); names.push_back(std::string(t.name) + ": " + s->name); }
}
enum { F_SHORT, F_EOF, F_THROW, F_TRANSIENT, F_TRANSIENT_THROW, F_SYNC, F_INSERTER, F_INS_FAILBIT, F_DEADSTREAM, F_NESTED, F_STALL, F_REWRITE, F_SHARED, F_FORMAT, F_PREEMPT };
// Fault kinds of an operation (a[4]); position a[5].
enum Kind { K_NONE, K_SHORT, K_EOF, K_THROW, K_TSHORT, K_TTHROW, K_SYNC, K_INS, K_INSBAD, K_INSINT, K_INSFAILBIT, K_FAILED, K_BADSTATE, K_EOFSTATE, K_NORDBUF, K_NESTED, K_N };
constexpr int NFORMAT = 12;

struct DeviceError : std::exception { char const *what() const noexcept override { return "device error"; } };

// A stream buffer over a simulated device.
struct Device : std::streambuf {
    std::string got;                       // accepted, in order
    Kind kind = K_NONE;
    long budget = -1;                      // bytes still accepted before the fault
    bool fired_ = false, threw = false;
    int syncs = 0, stall = 0;
    char area[64];
    int cap = 0;                           // size of the put area (0: unbuffered)
    int pos = 0;                           // the position it reports: 0 none, 1 what was accepted, 2 always the same, 3 a position beyond what was accepted
    void (*nested)() = nullptr;
    void setup(int c) { cap = c; setp(area, area + cap); }
    void heal() { kind = K_NONE; budget = -1; fired_ = threw = false; got.clear(); setp(area, area + cap); nested = nullptr; }
    bool faulty() const { return kind == K_SHORT || kind == K_EOF || kind == K_THROW || kind == K_TSHORT || kind == K_TTHROW; }
    // Passes n bytes to the device; returns how many it took, throws if that is its fault.
    std::streamsize give(char const *s, std::streamsize n) {
        if (stall) { fired(F_STALL); point(PT_IO); }
        if (nested) { auto f = nested; nested = nullptr; fired(F_NESTED); f(); nested = nullptr; }
        if (!faulty() || n <= budget) { got.append(s, n); if (faulty()) budget -= n; return n; }
        std::streamsize k = budget; if (k < 0) k = 0;
        if (kind == K_EOF) k = 0;                           // a whole request refused
        got.append(s, k);
        budget = 0; fired_ = true;
        Kind was = kind;
        if (was == K_TSHORT || was == K_TTHROW) kind = K_NONE;   // works again from now on
        fired(was == K_SHORT ? F_SHORT : was == K_EOF ? F_EOF : was == K_THROW ? F_THROW : was == K_TSHORT ? F_TRANSIENT : F_TRANSIENT_THROW);
        if (was == K_THROW || was == K_TTHROW) { threw = true; throw DeviceError(); }
        return k;
    }
    bool drain() {
        std::streamsize n = pptr() - pbase();
        if (n == 0) return true;
        setp(area, area + cap);                             // what the device refuses is lost
        return give(area, n) == n;
    }
    int_type overflow(int_type c) override {
        if (cap) {
            if (!drain()) return traits_type::eof();
            if (traits_type::eq_int_type(c, traits_type::eof())) return 0;
            *pptr() = (char)c; pbump(1);
            return c;
        }
        if (traits_type::eq_int_type(c, traits_type::eof())) return 0;
        char ch = (char)c;
        return give(&ch, 1) == 1 ? c : traits_type::eof();
    }
    std::streamsize xsputn(char const *s, std::streamsize n) override {
        if (!cap) return give(s, n);
        std::streamsize i = 0;
        while (i < n) {
            if (pptr() == epptr() && !drain()) return i;
            std::streamsize k = std::min<std::streamsize>(n - i, epptr() - pptr());
            std::memcpy(pptr(), s + i, k); pbump((int)k); i += k;
        }
        return n;
    }
    int sync() override {
        syncs++;
        if (stall) { fired(F_STALL); point(PT_IO); }
        if (!drain()) return -1;
        if (kind == K_SYNC && syncs > budget) { fired_ = true; fired(F_SYNC); return -1; }
        return 0;
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
        if (pos == 0 || off != 0 || dir != std::ios_base::cur) return pos_type(off_type(-1));
        return pos_type(off_type(pos == 2 ? 0 : (long)(got.size() + (pptr() - pbase())) + (pos == 3 ? 1000000 : 0)));
    }
    // Everything accepted so far: what the device took and what waits in the buffer.
    std::string accepted() const { return got + std::string(pbase(), pptr()); }
};
// The console must stay silent.
struct Trap : std::streambuf { long n = 0; int_type overflow(int_type c) override { n++; return c; } std::streamsize xsputn(char const *, std::streamsize k) override { n += k; return k; } };
Trap *trap;

struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } std::string do_grouping() const override { return "\2"; } char do_thousands_sep() const override { return '\''; } };
void format(std::ostream &o, int f) {
    o.flags(std::ios_base::dec | std::ios_base::skipws);
    o.precision(6); o.fill(' ');
    switch (f) {
    case 1: o.precision(2); break;
    case 2: o.setf(std::ios_base::fixed, std::ios_base::floatfield); o.precision(17); break;
    case 3: o.setf(std::ios_base::scientific, std::ios_base::floatfield); o.precision(3); break;
    case 4: o.setf(std::ios_base::fixed | std::ios_base::scientific, std::ios_base::floatfield); break;
    case 5: o.setf(std::ios_base::hex, std::ios_base::basefield); o.setf(std::ios_base::showbase); break;
    case 6: o.setf(std::ios_base::showpos); break;
    case 7: o.setf(std::ios_base::showpoint | std::ios_base::uppercase | std::ios_base::boolalpha); break;
    case 8: o.fill('*'); o.setf(std::ios_base::left, std::ios_base::adjustfield); break;
    case 9: o.setf(std::ios_base::oct, std::ios_base::basefield); o.setf(std::ios_base::internal, std::ios_base::adjustfield); o.precision(0); break;
    case 10: o.precision(30); break;
    default: break;                                        // 0, 11 (locale)
    }
}
struct Format { std::ios_base::fmtflags fl; std::streamsize pr, w; char fill; std::locale loc; std::ios_base::iostate mask; std::streambuf *b; std::ostream *tie;
    explicit Format(std::ostream &o) : fl(o.flags()), pr(o.precision()), w(o.width()), fill(o.fill()), loc(o.getloc()), mask(o.exceptions()), b(o.rdbuf()), tie(o.tie()) {}
    char const *differs(std::ostream &o) const {
        return o.flags() != fl ? "format flags" : o.precision() != pr ? "precision" : o.width() != w ? "width" : o.fill() != fill ? "fill character" : !(o.getloc() == loc) ? "locale" : o.exceptions() != mask ? "exception mask" : o.rdbuf() != b ? "stream buffer" : o.tie() != tie ? "tied stream" : nullptr;
    } };

struct TaskStreams { Device dev[2], tied_dev, nested_dev; std::ostream *os[2] = {}, *tied = nullptr; std::locale loc[2]; };
TaskStreams *ts[MAXT + 1];
TaskStreams &mine() { auto *&p = ts[self() + 1]; if (!p) p = new TaskStreams(); return *p; }

// Another writer running inside the device of the first one (a logging or tee buffer).
struct NestedCall { Op op; std::string first; bool done; } nested_call[MAXT + 1];

void healthy(Op const &o, std::string &text) {              // the text on a fresh, working stream
    Device d; d.setup(0);
    std::ostream os(&d);
    if (o.a[7] == 11) os.imbue(std::locale(std::locale::classic(), new Punct));
    format(os, o.a[7]);
    hx::WriteJob &j = hx::job();
    hx::WriteJob was = j;
    j = hx::WriteJob(); j.os = &os; j.how = o.a[3];
    all[o.code]->run(hx::Args{ o.a, o.a[2] });
    j = was;
    if (!os.good()) violation("spurious-failure", "writing to a working stream left it in a failed state: " + names[o.code]);
    text = d.accepted();
}
void do_nested() {
    NestedCall &n = nested_call[self() + 1];
    Op o = n.op;
    o.a[2] = 0;
    healthy(o, n.first);
    n.done = true;
}

void gen(Rng &r, Plan &p, bool thorough) {
    load();
    swarm_schedule(r, p);
    if (r.chance(1, 2)) p.sched.p[PT_IO] = 8192 << r.below(3);
    p.ntasks = (int)(r.chance(4, 10) ? 1 : r.chance(7, 10) ? 2 : 3);
    int nfocus = 1 + r.below(4);
    std::vector<int> focus;
    for (int i = 0; i < nfocus; i++) focus.push_back(r.below(all.size()));
    int idxs[2] = { (int)r.below(hx::NORD), (int)r.below(hx::NORD) };
    int n = 1 + r.below(p.ntasks > 1 ? 8 : 6);
    if (thorough && r.chance(1, 10)) n += r.below(30);
    if (r.chance(1, 60)) {                                                             // a long history of few operations
        n = 40 + r.below(r.chance(1, 3) ? 260 : 60);
        nfocus = 1 + r.below(std::min(nfocus, 2));
        if (r.chance(1, 2)) p.ntasks = 1;
    }
    int faultiness = r.below(4);
    for (int i = 0; i < n; i++) {
        Op o;
        o.task = r.below(p.ntasks);
        o.code = focus[r.below(nfocus)];
        o.a[0] = idxs[r.below(2)]; o.a[1] = idxs[r.below(2)];
        o.a[2] = r.below(4);
        o.a[3] = r.chance(1, 2) ? 0 : r.below(7);
        o.a[4] = (int)r.below(4) < faultiness ? r.below(K_N) : (int)K_NONE;
        o.a[5] = r.chance(1, 6) ? r.below(3) : r.below(4096);
        // stream configuration: bits 0-1 buffer, 2-4 exception mask, 5 unitbuf, 6 stall, 7 tied, 8 which stream, 9-10 the position it reports
        o.a[6] = r.below(2048);
        o.a[7] = r.chance(1, 2) ? 0 : r.below(NFORMAT);
        if (all[o.code]->arity < 2) { o.a[1] = 0; o.a[2] &= 1; }
        p.ops.push_back(o);
    }
}
struct Ctx { Plan const *p; std::vector<uint64_t> const *ref; };

void one(Op const &o, uint64_t want, uint64_t len) {
    TaskStreams &t = mine();
    int which = o.a[6] >> 8 & 1;
    Device &d = t.dev[which];
    static int const caps[4] = { 0, 1, 7, 64 };
    d.heal();
    d.setup(caps[o.a[6] & 3]);
    if (!t.os[which]) t.os[which] = new std::ostream(&d);
    std::ostream &os = *t.os[which];
    os.exceptions(std::ios_base::goodbit);
    os.rdbuf(&d);                                            // clears the state
    std::locale loc = std::locale::classic();
    if (o.a[7] == 11) loc = std::locale(loc, new Punct);
    os.imbue(loc);
    format(os, o.a[7]);
    d.stall = o.a[6] >> 6 & 1;
    d.pos = o.a[6] >> 9 & 3;
    if (!t.tied) { t.tied_dev.setup(0); t.tied = new std::ostream(&t.tied_dev); }
    t.tied_dev.heal();
    os.tie(o.a[6] & 128 ? t.tied : nullptr);
    static std::ios_base::iostate const masks[8] = { std::ios_base::goodbit, std::ios_base::goodbit, std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::failbit | std::ios_base::badbit,
        std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit, std::ios_base::badbit };
    auto mask = masks[o.a[6] >> 2 & 7];
    Kind k = (Kind)o.a[4];
    bool unit = o.a[6] & 32;
    if (k == K_SYNC) unit = true;
    if (unit) {                                              // libstdc++ flushes in the noexcept destructor of the sentry
        mask = std::ios_base::goodbit;
        if (k == K_THROW) k = K_SHORT;
        if (k == K_TTHROW) k = K_TSHORT;
        os.setf(std::ios_base::unitbuf);
    }
    bool failed_at_start = false;
    d.kind = k; d.syncs = 0;
    d.budget = len ? (long)(o.a[5] % (k == K_SYNC ? 9 : len)) : 0;
    if (k == K_NESTED) { NestedCall &n = nested_call[self() + 1]; n.op = o; n.first.clear(); n.done = false; d.nested = do_nested; d.budget = -1; }
    if (k == K_FAILED || k == K_BADSTATE || k == K_EOFSTATE) { os.clear(k == K_FAILED ? std::ios_base::failbit : k == K_BADSTATE ? std::ios_base::badbit : std::ios_base::eofbit); failed_at_start = true; mask = std::ios_base::goodbit; fired(F_DEADSTREAM); }
    if (k == K_NORDBUF) { os.rdbuf(nullptr); failed_at_start = true; mask = std::ios_base::goodbit; fired(F_DEADSTREAM); }
    if (!d.faulty() && k != K_SYNC) d.budget = -1;
    os.exceptions(mask);
    int id = 1000 + o.code;
    hx::arm_inserter(k == K_INS || k == K_INSBAD || k == K_INSINT || k == K_INSFAILBIT ? 1 + o.a[5] % 6 : 0, k == K_INS ? hx::IF_CUSTOM : k == K_INSBAD ? hx::IF_BADALLOC : k == K_INSINT ? hx::IF_INT : hx::IF_FAILBIT, id);
    hx::WriteJob &j = hx::job();
    j = hx::WriteJob(); j.os = &os; j.how = o.a[3];
    Format before(os);
    if (o.a[2]) fired(F_SHARED);
    if (o.a[7]) fired(F_FORMAT);
    enum { NONE, IOS, DEV, INJ, BADALLOC, INT, OTHER } exc = NONE;
    std::string exc_name;
    bool id_ok = true;
    try { all[o.code]->run(hx::Args{ o.a, o.a[2] }); }
    catch (std::ios_base::failure const &) { exc = IOS; }
    catch (DeviceError const &) { exc = DEV; }
    catch (hx::InjectedFault const &e) { exc = INJ; id_ok = e.id == id; }
    catch (std::bad_alloc const &) { exc = BADALLOC; }
    catch (int v) { exc = INT; id_ok = v == id; }
    catch (std::exception const &e) { exc = OTHER; exc_name = typeid(e).name(); }
    bool ins = hx::inserter_fired();
    hx::arm_inserter(0, hx::IF_NONE, 0);
    if (ins) fired(k == K_INSFAILBIT ? F_INS_FAILBIT : F_INSERTER);
    bool ins_threw = ins && k != K_INSFAILBIT;
    auto state = os.rdstate();
    std::string got = d.accepted();
    std::string nm = names[o.code];
    note_value(hash_bytes(got.data(), got.size())); note_value((uint64_t)state * 16 + exc);
    if (char const *w = before.differs(os)) violation("format-state", std::string("writing changed the stream's ") + w + ": " + nm);
    if (j.wrong_stream) violation("wrong-stream", "the call returned another stream: " + nm);
    if (!t.tied_dev.accepted().empty()) violation("wrong-stream", "text was written to the tied stream: " + nm);
    if (trap->n) violation("wrong-stream", "text was written to a standard stream: " + nm);
    bool dev_fired = d.fired_, dev_threw = d.threw;
    // The complete text, from the same task on the same stream once it works again.
    os.exceptions(std::ios_base::goodbit);
    os.rdbuf(&d);
    d.heal();
    j = hx::WriteJob(); j.os = &os; j.how = o.a[3];
    try { all[o.code]->run(hx::Args{ o.a, o.a[2] }); }
    catch (std::exception const &e) { violation("spurious-failure", std::string("an exception (") + typeid(e).name() + ") left a write to a working stream: " + nm); }
    catch (...) { violation("spurious-failure", "an exception left a write to a working stream: " + nm); }
    std::string full = d.accepted();
    if (!os.good()) violation("spurious-failure", "writing to a working stream left it in a failed state: " + nm);
    note_value(hash_bytes(full.data(), full.size()));
    if (k != K_NONE) fired(F_REWRITE);
    auto quote = [](std::string const &x) { return "\"" + (x.size() > 300 ? x.substr(0, 300) + "..." : x) + "\""; };
    if (hash_bytes(full.data(), full.size()) != want || full.size() != len) violation("text", "writing to a working stream gave another text than the same write in a fresh process: " + quote(full) + ": " + nm);
    NestedCall &nc = nested_call[self() + 1];
    if (k == K_NESTED && nc.done && nc.first != full) violation("text", "a write made from inside the stream buffer of another write gave " + quote(nc.first) + " instead of " + quote(full) + ": " + nm);
    if (full.compare(0, got.size(), got) != 0 || got.size() > full.size()) violation("prefix", "the stream accepted " + quote(got) + ", which is not a prefix of the text " + quote(full) + ": " + nm);
    bool bad = (state & (std::ios_base::badbit | std::ios_base::failbit)) != 0;
    if (dev_fired || ins || failed_at_start) {
        if (failed_at_start) {
            if (!got.empty()) violation("prefix", "text was written to a stream that had already failed: " + nm);
            if (exc != NONE) violation("wrong-exception", "an exception left a write to a stream that had failed and has exceptions off: " + nm);
            if (!(state & (std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit))) violation("failure-hidden", "writing cleared the failed state of the stream: " + nm);
            return;
        }
        if (exc == NONE && !bad) violation("failure-hidden", std::string(ins_threw ? "a coefficient inserter threw" : ins ? "a coefficient inserter set failbit" : "the stream refused data") + " but the call ended normally and the stream is good, having accepted " + quote(got) + ": " + nm);
        if (exc == NONE && (state & mask)) violation("failure-hidden", "the stream failed and has exceptions enabled for that, but no exception reached the caller: " + nm);
        bool allowed = exc == NONE || (exc == IOS && mask != std::ios_base::goodbit && ((dev_fired && !(dev_threw && (mask & std::ios_base::badbit))) || k == K_INSFAILBIT)) || (exc == DEV && dev_threw && (mask & std::ios_base::badbit)) ||
            (ins_threw && id_ok && ((exc == INJ && k == K_INS) || (exc == BADALLOC && k == K_INSBAD) || (exc == INT && k == K_INSINT)));
        if (!allowed) violation("wrong-exception", "the exception that left the call is not the one the stream or the inserter raised (kind " + std::to_string(exc) + " " + exc_name + "): " + nm);
    }
    else {
        if (exc != NONE) violation("spurious-failure", "an exception left a write to a working stream (kind " + std::to_string(exc) + " " + exc_name + "): " + nm);
        if (state != std::ios_base::goodbit) violation("spurious-failure", "writing to a working stream left it in state " + std::to_string((int)state) + ": " + nm);
        if (got != full) violation("text", "the stream never failed but accepted " + quote(got) + " instead of " + quote(full) + ": " + nm);
    }
}
void body(int task, void *arg) {
    Ctx &c = *(Ctx *)arg;
    for (size_t i = 0; i < c.p->ops.size(); i++) {
        Op const &o = c.p->ops[i];
        if (o.task != task) continue;
        set_op((int)i);
        point(PT_OP);
        snprintf(out->note, sizeof out->note, "task %d writing '%s'", task, names[o.code].c_str());
        one(o, (*c.ref)[2 * i], (*c.ref)[2 * i + 1]);
    }
}
void traps() { trap = new Trap(); std::cout.rdbuf(trap); std::cerr.rdbuf(trap); std::clog.rdbuf(trap); }
void exec(Plan const &p, std::vector<uint64_t> const &ref) {
    load();
    std::clog.rdbuf(nullptr);                                // one-time conversion warnings while operands are made
    for (auto &o : p.ops) all[o.code]->prepare(hx::Args{ o.a, 0 });
    std::clog.clear();
    traps();
    Ctx c{ &p, &ref };
    run_tasks(p.ntasks, body, &c, p.sched);
    out->faults[F_PREEMPT] += out->nswitch;
}
uint64_t op_key(Op const &o) { return mix(mix(mix(mix(mix(7, o.code), o.a[0]), o.a[1]), o.a[3]), o.a[7]) | 1; }
// The text alone in a fresh process, which must also be what the harness's own formatter says.
void reference(Op const &o) {
    load();
    snprintf(out->note, sizeof out->note, "single call '%s'", names[o.code].c_str());
    traps();
    Device d; d.setup(0);
    std::ostream os(&d);
    if (o.a[7] == 11) os.imbue(std::locale(std::locale::classic(), new Punct));
    format(os, o.a[7]);
    hx::WriteJob &j = hx::job();
    std::string want;
    j = hx::WriteJob(); j.os = &os; j.how = o.a[3]; j.expected = &want; j.default_format = o.a[7] == 0;
    all[o.code]->run(hx::Args{ o.a, 0 });
    std::string got = d.accepted();
    if (!os.good()) violation("spurious-failure", "writing to a working stream left it in a failed state: " + names[o.code]);
    if (!want.empty() && got != want) violation("text", "the text is \"" + got + "\" instead of \"" + want + "\": " + names[o.code]);
    if (got.empty()) violation("text", "nothing was written: " + names[o.code]);
    out->digest[0] = hash_bytes(got.data(), got.size());
    out->digest[1] = got.size();
}
std::string describe(Plan const &, Op const &o) {
    load();
    static char const *const kn[K_N] = { "no fault", "device accepts part, then refuses", "device refuses requests past a point", "device throws", "device refuses once", "device throws once", "flush refused", "inserter throws", "inserter throws bad_alloc", "inserter throws int", "inserter sets failbit", "stream already failed", "stream already bad", "stream at eof", "no stream buffer", "nested write from the stream buffer" };
    return names[o.code] + " operands " + std::to_string(o.a[0]) + "," + std::to_string(o.a[1]) + (o.a[2] ? " (shared)" : "") + ", " + (o.a[3] ? "write() with names " + std::to_string(o.a[3]) : std::string("operator<<")) + ", " + kn[o.a[4]] + " at " + std::to_string(o.a[5]) + ", stream set-up " + std::to_string(o.a[6]) + ", format " + std::to_string(o.a[7]);
}
std::string tag(Plan const &, Op const &o) { load(); return names[o.code]; }
}
sim::Workload const sim::workload = { "C02",
    { "device accepts part of the data, then refuses", "device refuses a whole request", "device throws", "transient refusal", "transient device exception", "flush refused", "coefficient inserter throws", "coefficient inserter sets failbit", "stream already failed", "nested write from inside the stream buffer", "device stalls (other tasks may run)", "write repeated on the recovered stream", "expression shared with other tasks", "changed formatting state", "preemption at a scheduling point" },
    gen, exec, op_key, reference, describe, 2, tag, 1u << F_PREEMPT | 1u << F_STALL | 1u << F_FORMAT | 1u << F_REWRITE };
