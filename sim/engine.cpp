#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace sim {

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string save_plan(Plan const &p, std::string const &cls = "", std::string const &detail = "") {
    std::ostringstream o;
    o << "simplan 1\nproperty " << workload.property << "\norigin " << p.origin << "\n";
    if (!cls.empty()) o << "expect " << cls << "\n";
    if (!detail.empty()) { std::string d = detail; for (auto &c : d) if (c == '\n') c = ' '; o << "# " << d << "\n"; }
    o << "tasks " << p.ntasks << "\nfill " << p.fill_alloc << " " << p.fill_free << " " << p.sched.stack_fill << "\nknobs";
    for (int k : p.knob) o << " " << k;
    o << "\n";
    if (p.sched.random) { o << "sched random " << p.sched.seed; for (auto x : p.sched.p) o << " " << x; }
    else { o << "sched list"; for (auto &s : p.sched.list) o << " " << s.step << ":" << s.task; }
    o << "\n";
    for (auto &op : p.ops) {
        o << "op " << op.task << " " << op.code;
        for (int x : op.a) o << " " << x;
        o << "   # " << workload.describe(p, op) << "\n";
    }
    return o.str();
}
static bool load_plan(std::string const &file, Plan &p, std::string &expect) {
    std::ifstream f(file);
    if (!f) return false;
    std::string l;
    while (std::getline(f, l)) {
        std::istringstream i(l);
        std::string k; i >> k;
        if (k == "tasks") i >> p.ntasks;
        else if (k == "origin") { std::getline(i, p.origin); if (!p.origin.empty()) p.origin.erase(0, 1); }
        else if (k == "expect") i >> expect;
        else if (k == "fill") i >> p.fill_alloc >> p.fill_free >> p.sched.stack_fill;
        else if (k == "knobs") for (int &x : p.knob) i >> x;
        else if (k == "sched") {
            std::string m; i >> m;
            if (m == "random") { p.sched.random = true; i >> p.sched.seed; for (auto &x : p.sched.p) i >> x; }
            else { p.sched.random = false; std::string e; while (i >> e) { Switch s; auto c = e.find(':'); s.step = std::stoull(e.substr(0, c)); s.task = std::stoi(e.substr(c + 1)); p.sched.list.push_back(s); } }
        }
        else if (k == "op") { Op op; i >> op.task >> op.code; for (int &x : op.a) i >> x; p.ops.push_back(op); }
    }
    return true;
}

// ---------------------------------------------------------------------------------------------------------------
struct Result { int kind = 0; std::string cls, detail; uint64_t hash = 0, order = 0, steps = 0, nswitch = 0; };   // kind 0 ok, 1 violation, 2 harness error
static Outcome *shared(bool fresh = false) {                      // every worker of a batch has its own
    static Outcome *o = nullptr;
    if (!o || fresh) { o = (Outcome *)mmap(nullptr, sizeof(Outcome), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); out = o; }
    return o;
}
static void child_limits(unsigned cpu) {
    rlimit r{ cpu, cpu + 1 }; setrlimit(RLIMIT_CPU, &r);
    rlimit c{ 0, 0 }; setrlimit(RLIMIT_CORE, &c);
    alarm(100);
    struct sigaction a{}; a.sa_handler = SIG_DFL; sigaction(SIGALRM, &a, nullptr);
}
template<class F> static int in_child(F f) {
    Outcome *o = shared();
    memset(o, 0, offsetof(Outcome, rec)); memset((char *)o + offsetof(Outcome, cur_task), 0, sizeof(Outcome) - offsetof(Outcome, cur_task));
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(90); }
    if (p == 0) {
        child_limits(25);
        arm_terminate_handlers();
        simulated_heap(true);
        f();
        complete();
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return st;
}

// Results of single calls in fresh processes, shared by all workers of a batch.
struct RefEntry { uint64_t key; uint64_t ready; uint64_t v[8]; };
static size_t const REF_SLOTS = 1 << 20;
static RefEntry *ref_table = nullptr;
static RefEntry *ref_find(uint64_t k, bool insert) {
    if (!ref_table) ref_table = (RefEntry *)mmap(nullptr, sizeof(RefEntry) * REF_SLOTS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t i = k % REF_SLOTS, n = 0; n < 64; i = (i + 1) % REF_SLOTS, n++) {
        uint64_t have = __atomic_load_n(&ref_table[i].key, __ATOMIC_ACQUIRE);
        if (have == k) return &ref_table[i];
        if (have == 0) {
            if (!insert) return nullptr;
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&ref_table[i].key, &z, k, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE) || z == k) return &ref_table[i];
        }
    }
    return nullptr;
}
static uint64_t n_refs = 0;
static bool references(Plan const &p, std::vector<uint64_t> &ref, Result &err) {
    ref.clear();
    int n = workload.op_slots;
    for (auto &op : p.ops) {
        uint64_t k = workload.op_key ? workload.op_key(op) : 0;
        if (!k) { ref.insert(ref.end(), n, 0); continue; }
        RefEntry *re = ref_find(k, false);
        std::vector<uint64_t> vals;
        if (re && __atomic_load_n(&re->ready, __ATOMIC_ACQUIRE)) vals.assign(re->v, re->v + n);
        else {
            n_refs++;
            set_heap_fill(0xa5, 0x5a);
            int st = in_child([&] { workload.reference(op); });
            Outcome *o = shared();
            if (o->status != 1) {
                err.kind = o->status == 2 ? 1 : 2;
                err.cls = o->status == 2 ? std::string("single-call ") + o->cls : "single-call crash";
                std::replace(err.cls.begin(), err.cls.end(), ' ', '-');
                err.detail = (o->status == 2 ? std::string(o->detail) : "status " + std::to_string(st)) + " in the single call " + workload.describe(p, op);
                if (err.kind == 2 && WIFSIGNALED(st)) err.kind = 1;
                return false;
            }
            vals.assign(o->digest, o->digest + n);
            if ((re = ref_find(k, true))) { for (int i = 0; i < n; i++) re->v[i] = vals[i]; __atomic_store_n(&re->ready, 1, __ATOMIC_RELEASE); }
        }
        ref.insert(ref.end(), vals.begin(), vals.end());
    }
    return true;
}
static Result run_plan(Plan const &p) {
    Result r;
    std::vector<uint64_t> ref;
    if (!references(p, ref, r)) return r;
    set_heap_fill((unsigned char)p.fill_alloc, (unsigned char)p.fill_free);
    int st = in_child([&] { workload.exec(p, ref); });
    Outcome *o = shared();
    r.hash = o->hash; r.order = o->order_hash; r.steps = o->steps; r.nswitch = o->nswitch;
    if (o->status == 2) { r.kind = 1; r.cls = o->cls; r.detail = o->detail; if (o->note[0]) { r.detail += " | "; r.detail += o->note; } }
    else if (WIFSIGNALED(st)) { r.kind = WTERMSIG(st) == SIGALRM ? 2 : 1; r.cls = WTERMSIG(st) == SIGXCPU ? "hang" : "crash"; r.detail = "killed by signal " + std::to_string(WTERMSIG(st)); }
    else if (o->status != 1) { r.kind = WEXITSTATUS(st) >= 90 ? 2 : 1; r.cls = "exit"; r.detail = "the process ended by itself with status " + std::to_string(WEXITSTATUS(st)); }
    if (r.kind == 1) r.hash = mix(r.hash, hash_bytes(r.cls.data(), r.cls.size()));
    return r;
}

// ---------------------------------------------------------------------------------------------------------------
static bool same(Plan const &p, std::string const &cls) { Result r = run_plan(p); return r.kind == 1 && r.cls == cls; }
static Plan listed(Plan p) {                                                      // the schedule just executed, as an explicit list
    Outcome *o = shared();
    p.sched.random = false;
    p.sched.list.assign(o->rec, o->rec + o->nrec);
    return p;
}
static Plan minimise(Plan p, std::string const &cls, double budget) {
    double t0 = now();
    if (p.sched.random) {
        Result r = run_plan(p);
        if (!(r.kind == 1 && r.cls == cls)) return p;
        if (shared()->nrec < sizeof(shared()->rec) / sizeof(Switch)) { Plan q = listed(p); if (same(q, cls)) p = q; }
    }
    auto drop_ops = [&](size_t chunk) {
        bool any = false;
        for (size_t i = 0; i < p.ops.size() && now() - t0 < budget;) {
            Plan q = p;
            q.ops.erase(q.ops.begin() + i, q.ops.begin() + std::min(q.ops.size(), i + chunk));
            bool ok = !q.ops.empty() && same(q, cls);
            if (!ok && !q.ops.empty() && !q.sched.random) {                        // the old switch points mean nothing now: try re-seeded schedules
                Plan z = q; z.sched.list.clear(); if (same(z, cls)) { q = z; ok = true; }
                for (uint64_t s = 1; s <= 6 && !ok && now() - t0 < budget; s++) {
                    Plan y = q; y.sched.random = true; y.sched.seed = s;
                    for (auto &x : y.sched.p) x = 8192;
                    if (same(y, cls)) { q = listed(y); ok = same(q, cls); if (!ok) { q = y; ok = true; } }
                }
            }
            if (ok) { p = q; any = true; } else i += chunk;
        }
        return any;
    };
    for (size_t c = std::max<size_t>(1, p.ops.size() / 2); ; c /= 2) { drop_ops(c); if (c <= 1) break; }
    // fewer tasks: renumber the used ones
    {
        std::map<int, int> m; for (auto &o : p.ops) if (o.task >= 0) m[o.task] = 0;
        int n = 0; for (auto &e : m) e.second = n++;
        if (n && n < p.ntasks) { Plan q = p; q.ntasks = n; for (auto &o : q.ops) if (o.task >= 0) o.task = m[o.task]; for (auto &s : q.sched.list) s.task = m.count(s.task) ? m[s.task] : 0; if (same(q, cls)) p = q; }
    }
    // fewer switches
    if (!p.sched.random) {
        for (size_t c = std::max<size_t>(1, p.sched.list.size() / 2); c >= 1; c /= 2) {
            for (size_t i = 0; i < p.sched.list.size() && now() - t0 < budget;) {
                Plan q = p;
                q.sched.list.erase(q.sched.list.begin() + i, q.sched.list.begin() + std::min(q.sched.list.size(), i + c));
                if (same(q, cls)) p = q; else i += c;
            }
            if (c == 1) break;
        }
    }
    // simpler arguments (op arguments from index 2 on are faults and options: 0 is the plain call)
    for (size_t i = 0; i < p.ops.size(); i++)
        for (int k = 0; k < NARG && now() - t0 < budget; k++)
            if (p.ops[i].a[k]) { Plan q = p; q.ops[i].a[k] = 0; if (same(q, cls)) p = q; }
    drop_ops(1);
    return p;
}

// ---------------------------------------------------------------------------------------------------------------
struct Stats { uint64_t runs, steps, switches, points[PT_N], faults[64], twice, nondet, errors, refs, nviol, multi; };
static std::string esc(std::string const &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

static Plan make_plan(uint64_t seed, uint64_t run, bool thorough) {
    Rng r(mix(seed * 0x2545f4914f6cdd1dull, run));
    Plan p;
    p.origin = "VERIF_SEED=" + std::to_string(seed) + " run=" + std::to_string(run);
    workload.gen(r, p, thorough);
    return p;
}

static int batch(uint64_t seed, uint64_t runs, double secs, int jobs, bool thorough, std::string const &dir, uint64_t first) {
    double t0 = now();
    ref_find(1, false);
    std::vector<pid_t> kids;
    Stats *all = (Stats *)mmap(nullptr, sizeof(Stats) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    volatile int *stop = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int w = 0; w < jobs; w++) {
        pid_t p = fork();
        if (p) { kids.push_back(p); continue; }
        Stats &st = all[w];
        shared(true);
        std::unordered_set<uint64_t> seen;
        std::map<std::string, uint64_t> tags;
        std::vector<std::string> samples;
        for (uint64_t run = first + w; run < first + runs; run += jobs) {
            if (now() - t0 > secs || *stop >= 4) break;
            Plan plan = make_plan(seed, run, thorough);
            Result r = run_plan(plan);
            Outcome *o = shared();
            st.runs++; st.steps += o->steps; st.switches += o->nswitch;
            if (plan.ntasks > 1) st.multi++;
            for (int k = 0; k < PT_N; k++) st.points[k] += o->points[k];
            for (int k = 0; k < 64; k++) st.faults[k] += o->faults[k];
            uint64_t ph = 7; for (auto &op : plan.ops) ph = mix(ph, hash_bytes(&op, sizeof op));
            bool nontrivial = o->nswitch > (uint64_t)plan.ntasks;
            for (int k = 0; k < 64; k++) if (o->faults[k] && !(workload.weak_faults >> k & 1)) nontrivial = true;
            if (nontrivial && seen.size() < 3000000) seen.insert(mix(o->order_hash, ph));
            if (workload.tag) for (auto &op : plan.ops) tags[workload.tag(plan, op)]++;
            if (samples.size() < 2 && plan.ops.size() > 2 && plan.ops.size() < 14) samples.push_back(save_plan(plan));
            if (r.kind == 2) {
                st.errors++;
                std::ofstream(dir + "/error." + std::to_string(w) + "." + std::to_string(st.errors) + ".txt") << r.cls << " " << r.detail << "\n" << save_plan(plan);
                if (st.errors > 20) break;
            }
            if (r.kind == 1) {
                st.nviol++;
                __sync_fetch_and_add((int *)stop, 1);
                std::ofstream(dir + "/viol." + std::to_string(w) + "." + std::to_string(st.nviol) + ".plan") << save_plan(plan, r.cls, r.detail);
                if (st.nviol >= 2) break;
                continue;
            }
            if ((run / jobs) % 40 == 7) { Result q = run_plan(plan); st.twice++; if (q.kind != r.kind || q.hash != r.hash) { st.nondet++; std::ofstream(dir + "/nondet." + std::to_string(w) + "." + std::to_string(st.nondet) + ".plan") << save_plan(plan); } }
        }
        st.refs = n_refs;
        { std::ofstream f(dir + "/seen." + std::to_string(w), std::ios::binary); for (uint64_t h : seen) f.write((char *)&h, 8); }
        { std::ofstream f(dir + "/tags." + std::to_string(w)); for (auto &t : tags) f << t.second << " " << t.first << "\n"; }
        { std::ofstream f(dir + "/samples." + std::to_string(w)); for (auto &s : samples) f << s << "\n"; }
        _exit(0);
    }
    int bad = 0;
    for (pid_t p : kids) { int s; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(s) || WEXITSTATUS(s)) bad++; }
    std::unordered_set<uint64_t> seen;
    std::map<std::string, uint64_t> tags;
    Stats t{};
    for (int w = 0; w < jobs; w++) {
        for (size_t i = 0; i < sizeof(Stats) / 8; i++) ((uint64_t *)&t)[i] += ((uint64_t *)&all[w])[i];
        std::ifstream f(dir + "/seen." + std::to_string(w), std::ios::binary); uint64_t h; while (f.read((char *)&h, 8)) seen.insert(h);
        std::ifstream g(dir + "/tags." + std::to_string(w)); uint64_t n; std::string s; while (g >> n && std::getline(g, s)) tags[s.substr(1)] += n;
    }
    std::ofstream j(dir + "/batch.json");
    j << "{\"runs\":" << t.runs << ",\"steps\":" << t.steps << ",\"switches\":" << t.switches << ",\"multi_task_runs\":" << t.multi << ",\"distinct\":" << seen.size()
      << ",\"executed_twice\":" << t.twice << ",\"nondeterministic\":" << t.nondet << ",\"errors\":" << t.errors + bad << ",\"reference_runs\":" << t.refs << ",\"violations\":" << t.nviol << ",\"wall\":" << now() - t0 << ",\"points\":{";
    for (int k = 0; k < PT_N; k++) j << (k ? "," : "") << "\"" << point_names[k] << "\":" << t.points[k];
    j << "},\"faults\":{";
    for (size_t k = 0; k < workload.fault_names.size(); k++) j << (k ? "," : "") << "\"" << workload.fault_names[k] << "\":" << t.faults[k];
    j << "},\"tags\":{";
    bool c = false; for (auto &e : tags) { j << (c ? "," : "") << "\"" << esc(e.first) << "\":" << e.second; c = true; }
    j << "}}\n";
    return 0;
}

int engine_main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 4096);
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    std::map<std::string, std::string> a;
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](char const *k, uint64_t d) { return a.count(k) ? std::stoull(a[k]) : d; };
    shared();
    try { throw 1; } catch (int) {}                                 // the unwinder sorts its tables at the first throw: once, not in every run
    if (cmd == "batch") return batch(num("--seed", 1), num("--runs", 1000000000), (double)num("--time", 10), (int)num("--jobs", 8), num("--thorough", 0), a["--dir"], num("--first", 0));
    if (cmd == "plan" || cmd == "min" || cmd == "show") {
        Plan p; std::string expect;
        if (a.count("--file")) { if (!load_plan(a["--file"], p, expect)) { fprintf(stderr, "cannot read the plan\n"); return 2; } }
        else p = make_plan(num("--seed", 1), num("--run", 0), num("--thorough", 0));
        if (cmd == "show") { printf("%s", save_plan(p).c_str()); return 0; }
        Result r = run_plan(p);
        if (cmd == "min" && r.kind == 1) {
            std::string cls = r.cls;
            Plan m = minimise(p, cls, (double)num("--time", 60));
            r = run_plan(m);
            if (r.kind == 1 && r.cls == cls) { std::ofstream(a["--out"]) << save_plan(m, r.cls, r.detail); printf("minimised ops=%zu switches=%zu\n", m.ops.size(), m.sched.list.size()); }
            else { std::ofstream(a["--out"]) << save_plan(p, cls, ""); r = run_plan(p); }
        }
        printf("result kind=%d class=%s hash=%016llx steps=%llu switches=%llu\n", r.kind, r.cls.empty() ? "-" : r.cls.c_str(), (unsigned long long)r.hash, (unsigned long long)r.steps, (unsigned long long)r.nswitch);
        if (!r.detail.empty()) printf("detail %s\n", r.detail.c_str());
        return r.kind == 1 ? 1 : r.kind == 2 ? 2 : 0;
    }
    fprintf(stderr, "usage: batch|plan|min|show\n");
    return 2;
}
}
int main(int c, char **v) { return sim::engine_main(c, v); }
