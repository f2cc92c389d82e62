// Ownership calls (C07): coefficients own memory; results must outlive their operands, operands must stay intact.
namespace hx {
inline void scramble(S &x, int idx) { x = S(value_of(NIDX + idx, 0, 1, 3)); }
template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0> void scramble(X &, int) {}
inline void scramble(std::string &x, int) { x += "?"; }
template<class X> void scramble(ga::grade_result<X> &, int) {}
template<class Co, class Ex> void scramble(ga::clifford_expression<Co, Ex> &x, int idx);
template<class... X> void scramble(std::tuple<X...> &t, int idx) { std::apply([&](auto &... e) { (scramble(e, idx), ...); }, t); }
template<class X> void scramble(std::vector<X> &t, int idx) { for (X &e : t) scramble(e, idx++); }
template<class A_, class B_> void scramble(std::pair<A_, B_> &t, int idx) { scramble(t.first, idx); scramble(t.second, idx); }
template<class Co, class Ex> void scramble(ga::clifford_expression<Co, Ex> &x, int idx) {
    int i = 0;
    for (auto &&v : x.values()) {
        if constexpr (std::is_lvalue_reference_v<decltype(v)> && !std::is_const_v<std::remove_reference_t<decltype(v)>>) v = std::decay_t<decltype(v)>(value_of(NIDX + idx, i++, 8, 3));
    }
}
void own_violation(char const *cls, char const *what);
void own_phase(int what);                                 // counts what took effect (see c07.cpp)
void churn_memory(int seed);                              // reuses freed memory and dead stack
template<class K> struct Operand {
    using Ty = std::decay_t<decltype(K::make(0))>;
    bool shared; Ty *p; uint64_t before;
    Operand(Args const &k, int i) : shared(k.mode >> i & 1), p(shared ? shared_slot<K>(k.a[i]) : new Ty(K::make(k.a[i]))), before(observe(*p)) {}
    Operand(Operand const &) = delete;
    ~Operand() { drop(); }
    Ty &ref() const { return *p; }                      // a non-const lvalue, as most operands of users are
    void check(int i, char const *when) { if (observe(*p) != before) operand_changed(i, when); }
    void spoil(int idx) { if (!shared) scramble(*p, idx); }
    void drop() { if (!shared && p) { delete p; p = nullptr; } }
};
struct OwnFault { int at = 0, kind = 0; };                 // the coefficient operation of the call that fails (modulo their number), and how
OwnFault &own_fault();                                    // of the current task
char const *own_failed_as(int kind, int id);              // called in a handler: "" if the exception is the injected one, else what is wrong with it
void own_failed(bool fired_);
template<class F, class... O> uint64_t own_interrupted(F const &f, O &... o) {
    arm_copy_fault(0, FK_NONE, 0);
    uint64_t d;
    { decltype(auto) r = call_apart(f, o.ref()...); d = observe(r); }
    int n = disarm_copy_fault();
    if (!n) return d;
    int id = own_fault().at, kind = own_fault().kind;
    arm_copy_fault(1 + id % n, (FaultKind)kind, id);
    try {
        decltype(auto) r = call_apart(f, o.ref()...);
        if (observe(r) != d) own_violation("failure-hidden", "an operation of a coefficient failed, the call ended normally with another result");
    }
    catch (...) {
        char const *wrong = own_failed_as(kind, id);
        if (*wrong) own_violation("wrong-exception", wrong);
    }
    bool fired_ = copy_fault_fired();
    disarm_copy_fault();
    own_failed(fired_);
    int i = 0;
    (o.check(i++, "seen after an operation of a coefficient had failed"), ...);
    return d;
}
template<class F, class... O> uint64_t own_once(Args const &k, F const &f, O &... o) {
    if (own_fault().at) {
        try {
            uint64_t d = own_interrupted(f, o...);
            auto r = call_apart(f, o.ref()...);
            if (observe(r) != d) own_violation("result-changed", "the call gives another result after it had been interrupted");
        }
        catch (std::exception const &) {}                 // the call ends by an exception of its own
    }
    auto check_all = [&](char const *when) { int i = 0; ((o.p ? o.check(i, when) : (void)0, i++), ...); };
    try {
        if constexpr (std::is_reference_v<decltype(f(o.ref()...))>) {   // the caller may keep what the call returned: auto const &r = ...
            auto &&kept = call_apart(f, o.ref()...);
            { Quiet q; churn_memory(k.a[0] + 1); }
            uint64_t d = observe(kept);
            { Quiet q; (o.spoil(k.a[0] + 3), ...); }
            own_phase(0);
            if (observe(kept) != d) own_violation("result-changed", "the result refers to an operand: it changed when the operands were modified");
            if ((!o.shared && ...)) return d;
        }
        auto r = call_apart(f, o.ref()...);
        uint64_t d = observe(r);
        check_all("seen right after the call");
        auto same = [&](auto const &x, char const *what) { if (observe(x) != d) own_violation("result-changed", what); };
        own_phase(0);
        { Quiet q; (o.spoil(k.a[0] + 3), ...); }
        same(r, "the result changed when the operands were modified");
        own_phase(1);
        { Quiet q; (o.drop(), ...); churn_memory(k.a[0]); }
        same(r, "the result changed when the operands were destroyed and their memory was reused");
        {
            auto c = r;
            same(c, "a copy of the result differs from the result");
            { Quiet q; scramble(r, 5); }
            same(c, "a copy of the result changed when the result was modified");
            if constexpr (std::is_copy_assignable_v<decltype(c)> && std::is_move_assignable_v<decltype(c)> && !std::is_arithmetic_v<decltype(c)>) {
                auto &itself = c;
                c = itself;
                same(c, "a result changed when it was assigned to itself");
                r = c;                                            // over coefficients that are alive
                same(r, "a copy assigned from the result differs from it");
                same(c, "a result changed when it was copied by assignment");
                { Quiet q; scramble(r, 6); }
                same(c, "a result changed when a copy assigned from it was modified");
                r = std::move(c);
                same(r, "a result changed when it was moved by assignment");
                { Quiet q; churn_memory(k.a[0] + 2); }
                c = r;                                            // a result that was moved from takes a value again
                { Quiet q; scramble(r, 7); }
                same(c, "a copy assigned to a result that had been moved from differs");
                std::swap(c, r);
                same(r, "a result changed when it was swapped");
                std::swap(r, c);
            }
            same(c, "a result changed when it was swapped back");
            auto m = std::move(c);
            same(m, "a result changed when it was moved");
        }
        own_phase(2);
        check_all("seen after the result was modified");
        return d;
    }
    catch (std::exception const &e) {
        check_all("seen after the call ended by an exception");
        own_phase(3);
        return outcome_of_exception(typeid(e).name());
    }
}
template<class F> uint64_t own_leak(F const &f) {         // a leak grows with every call; a one-time constant does not
    uint64_t d = 0;
    int grew = 0;
    for (int i = 0; i < 4; i++) {
        long n = live_objects_of_task();
        d = f();
        if (live_objects_of_task() <= n) break;
        if (++grew == 4) own_violation("leak", "coefficients made by the call were never destroyed");
    }
    return d;
}
}
namespace hx { template<class K, int N> void prepare_nth(Args const &k) { prepare_one<K>(k.a[N]); } template<class T> T temporary(T const &x) { return x; } }
#ifdef TEMPORARIES
#define HX1(KA, ...) { #__VA_ARGS__ " <" #KA "> of temporaries", 1, \
    [](hx::Args const &k) -> hx::uint64_t { return hx::own_leak([&] { hx::Operand<KA> oa(k, 0); return hx::own_once(k, [](auto &a_) -> decltype(auto) { (void)a_; return __VA_ARGS__; }, oa); }); }, \
    [](hx::Args const &k) { hx::prepare_nth<KA, 0>(k); } },
#define HX2(KA, KB, ...) { #__VA_ARGS__ " <" #KA "," #KB "> of temporaries", 2, \
    [](hx::Args const &k) -> hx::uint64_t { return hx::own_leak([&] { hx::Operand<KA> oa(k, 0); hx::Operand<KB> ob(k, 1); return hx::own_once(k, [](auto &a_, auto &b_) -> decltype(auto) { (void)a_; (void)b_; return __VA_ARGS__; }, oa, ob); }); }, \
    [](hx::Args const &k) { hx::prepare_nth<KA, 0>(k); hx::prepare_nth<KB, 1>(k); } },
#else
#define HX1(KA, ...) { #__VA_ARGS__ " <" #KA ">", 1, \
    [](hx::Args const &k) -> hx::uint64_t { return hx::own_leak([&] { hx::Operand<KA> oa(k, 0); return hx::own_once(k, [](auto &a) -> decltype(auto) { (void)a; return __VA_ARGS__; }, oa); }); }, \
    [](hx::Args const &k) { hx::prepare_nth<KA, 0>(k); } },
#define HX2(KA, KB, ...) { #__VA_ARGS__ " <" #KA "," #KB ">", 2, \
    [](hx::Args const &k) -> hx::uint64_t { return hx::own_leak([&] { hx::Operand<KA> oa(k, 0); hx::Operand<KB> ob(k, 1); return hx::own_once(k, [](auto &a, auto &b) -> decltype(auto) { (void)a; (void)b; return __VA_ARGS__; }, oa, ob); }); }, \
    [](hx::Args const &k) { hx::prepare_nth<KA, 0>(k); hx::prepare_nth<KB, 1>(k); } },
#endif
