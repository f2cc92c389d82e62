// Lazy contexts (C06): make, carry around, evaluate; the value must be the one computed directly on the inputs.
#include "lazyjob.h"
#include "refmodel.h"
#include <map>
#include <optional>
namespace hx {
using Value = std::map<uint64_t, double>;
template<class Co, class Ex> Value value(ga::clifford_expression<Co, Ex> const &x) { Value m; for (auto &c : components(x)) m[c.blade] += c.value; return m; }
template<class T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_same_v<T, S>, int> = 0> Value value(T const &v) { Quiet q; return Value{ { 0, to_d(v) } }; }
inline bool agree(Value const &a, Value const &b, double tol) {
    double scale = 0;
    for (auto &e : a) scale = std::max(scale, std::fabs(e.second));
    auto get = [](Value const &m, uint64_t k) { auto i = m.find(k); return i == m.end() ? 0.0 : i->second; };
    auto one = [&](double x, double y) { return x == y || (x != x && y != y) || std::fabs(x - y) <= tol * std::max(1.0, scale); };
    for (auto &e : a) if (!one(e.second, get(b, e.first))) return false;
    for (auto &e : b) if (!one(e.second, get(a, e.first))) return false;
    return true;
}
inline std::string show(Value const &v) { std::ostringstream o; o.precision(17); for (auto &e : v) o << "(" << e.first << ": " << e.second << ")"; return o.str(); }
template<class... X> double rounding_scale(std::unique_ptr<X> const &... x) {          // of sums of products of three inputs in single precision
    double m = 0;
    (([&] { for (auto &c : components(*x)) m = std::max(m, std::fabs(c.value)); }()), ...);
    return m * m * m * 1e-6;
}
namespace {
inline Ref const &as_ref(Ref const &x) { return x; }
template<class Co, class Ex> Ref as_ref(ga::clifford_expression<Co, Ex> const &x) { return ref_of(x); }
}
template<class K> using TypeOf = std::decay_t<decltype(K::make(0))>;
inline int exact_idx(int i) { return NIDX + 20 + i; }                 // values whose sums and products are exact
template<class X> void spoil(X &x, int salt) { Quiet q; int i = 0; for (auto &v : x.values()) { if constexpr (std::is_lvalue_reference_v<decltype(v)>) v = std::decay_t<decltype(v)>(value_of(NIDX + 300 + salt, i++, 8, 1)); } }
// A type-erased context kept for other tasks.
constexpr int LIDX = 6;
template<class... K> void *&kept(Args const &k) { static void *s[LIDX * LIDX * LIDX]; return s[(k.a[0] % LIDX * LIDX + k.a[1] % LIDX) * LIDX + k.a[2] % LIDX]; }

template<class C, class E> bool evaluate(C const &ctx, E const &e, Value const &want, double tol, char const *when, int repeats) {
    uint64_t first = 0;
    for (int i = 0; i < repeats; i++) {
        auto r = e(ctx);
        lazy_done(i ? LZ_REPEAT : LZ_EVAL);
        Value got = value(r);
        if (!agree(got, want, tol)) lazy_report(i ? "second-evaluation" : "value", "evaluation " + std::to_string(i + 1) + " gave " + show(got) + " instead of " + show(want) + " (" + when + ")");
        uint64_t o = observe(r);
        if (i && o != first) lazy_report("second-evaluation", std::string("evaluating again gave other data (") + when + ")");
        first = o;
        if (i + 1 < repeats) lazy_between(10 + i);
    }
    return true;
}
template<class C> [[gnu::noinline]] C pass_on(C c) { return c; }
// A copy of a context that fails in the middle leaves the context as it is.
template<class C> void failing_copy(C const &c, int n) {
    if constexpr (!std::is_nothrow_copy_constructible_v<C>) {
        arm_copy_fault(1 + n % 12, FK_BADALLOC, 0);
        try { C d(c); lazy_between(6); }
        catch (std::bad_alloc const &) {}
        bool failed = copy_fault_fired();
        disarm_copy_fault();
        if (failed) lazy_done(LZ_FAILED);
    }
}
template<class M> [[gnu::noinline]] auto returned(M const &make) { auto c = make(); lazy_between(1); return c; }
// make(given, inputs...) makes the context; eval(ctx) builds the expression from its arguments and evaluates it.
template<class Make, class Eval, class In> void carry(LazyJob &j, Make const &make, Eval const &ev, In &in, Value const &want, double tol) {
    using C = std::decay_t<decltype(make(in))>;
    auto gone = [&] {                                          // the inputs change and then cease to exist
        if (j.story & 1) { std::apply([&](auto &... x) { (spoil(*x, j.salt), ...); }, in); lazy_done(LZ_MODIFIED); }
        if (j.story & 2) { std::apply([&](auto &... x) { (x.reset(), ...); }, in); lazy_done(LZ_GONE); }
        lazy_between(0);
    };
    switch (j.carry) {
    case CR_HERE: { C c = make(in); gone(); evaluate(c, ev, want, tol, "used where it was made", j.repeats); break; }
    case CR_RETURNED: { C c = returned([&] { return make(in); }); gone(); evaluate(c, ev, want, tol, "returned from the function that made it", j.repeats); break; }
    case CR_COPIED: {
        std::unique_ptr<C> a(new C(make(in)));
        if (j.salt & 8) failing_copy(*a, j.salt >> 4);
        C b = *a;
        if (j.story & 4) { a.reset(); gone(); }
        else { gone(); evaluate(*a, ev, want, tol, "after it had been copied", 1); a.reset(); lazy_between(2); }
        C d = pass_on(b);
        evaluate(b, ev, want, tol, "a copy of a context that is gone", j.repeats);
        evaluate(d, ev, want, tol, "a copy of a copy", 1);
        break;
    }
    case CR_MOVED: {
        std::unique_ptr<C> a(new C(make(in)));
        C b = std::move(*a);
        a.reset(); gone();
        C d = pass_on(std::move(b));
        evaluate(d, ev, want, tol, "moved twice", j.repeats);
        break;
    }
    case CR_HEAP: { std::unique_ptr<C> a(new C(make(in))); gone(); std::shared_ptr<C> b(std::move(a)); evaluate(*b, ev, want, tol, "on the heap", j.repeats); break; }
    case CR_LAMBDA: { auto f = [c = make(in), ev] { return ev(c); }; gone(); auto g = f; Value got = value(g()); lazy_done(LZ_EVAL); if (!agree(got, want, tol)) lazy_report("value", "a context captured by a lambda gave " + show(got) + " instead of " + show(want)); break; }
    case CR_VECTOR: {
        std::vector<C> v; for (int i = 0; i < 3; i++) { v.push_back(make(in)); if (i == 1) lazy_between(3); }
        gone();
        v.push_back(v[0]); v.push_back(C(v[1]));
        evaluate(v[0], ev, want, tol, "in a container", j.repeats);
        evaluate(v[4], ev, want, tol, "in a container that has grown", 1);
        break;
    }
    case CR_TUPLE: {
        auto t = std::make_tuple(1, make(in), 2); gone(); auto u = t;
        evaluate(std::get<1>(u), ev, want, tol, "in a tuple", j.repeats);
        evaluate(std::get<1>(t), ev, want, tol, "in a copied tuple", 1);
        break;
    }
    }
}
template<int Lvalue, class X> std::conditional_t<Lvalue, X const &, X> give(X const &x) { return x; }
template<std::size_t... I, class... X> auto mixed(std::index_sequence<I...>, X const &... x) { return ga::make_lazy_context(give<I % 2>(x)...); }
// An expression of a lazy argument and a stored tolerance, which cannot be evaluated, but must be formed without harm.
template<class X, class G> void formed(X const &x, G const &g) {
    if (x.values().begin() != x.values().end()) return;
    double tol = to_d(ga::default_tolerance<typename X::coefficient_type>());
    for (auto &v : g.values()) if (to_d(v) != tol) lazy_report("formed", "an expression of a lazy argument and a stored tolerance stores something else");
}
// Model: the value is computed by the reference model, not only directly.
template<bool Model = true, class F, class... K> uint64_t lazy_site(Args const &k, F const &f, double tol, K...) {
    LazyJob &j = ljob();
    int idx[4] = { exact_idx(k.a[0]), exact_idx(k.a[1]), exact_idx(k.a[2]), exact_idx((k.a[0] + 2 * k.a[2] + 1) % LIDX) };
    int n = 0;
    // Braced initialisation evaluates from left to right.
    std::tuple<std::unique_ptr<TypeOf<K> >...> in{ std::unique_ptr<TypeOf<K> >(new TypeOf<K>(K::make(idx[n++])))... };
    if constexpr ((std::is_same_v<typename TypeOf<K>::coefficient_type, float> || ...)) tol = std::max(tol, std::apply([](auto &... x) { return rounding_scale(x...); }, in));
    Value want = std::apply([&](auto &... x) {
        if constexpr (Model) return as_ref(f(ref_of(std::as_const(*x))...)).m;
        else return value(f(std::as_const(*x)...));
    }, in);
    if constexpr (Model) {
        Value direct = std::apply([&](auto &... x) { return value(f(std::as_const(*x)...)); }, in);
        if (!agree(direct, want, tol)) lazy_report("direct-value", "computed directly: " + show(direct) + ", by definition: " + show(want));
    }
    uint64_t d = 1;
    for (auto &e : want) { uint64_t b; double v = e.second + 0.0; std::memcpy(&b, &v, 8); d = sim::mix(sim::mix(d, e.first), b); }
    auto ev = [&f](auto const &c) { return std::apply([&](auto const &... a) { auto x = f(a...); return c.eval(x); }, c.arguments()); };
    auto make = [&j](auto &in) {
        return std::apply([&](auto &... x) {
            if (j.given == GV_TEMPORARIES) return ga::make_lazy_context(std::decay_t<decltype(*x)>(*x)...);
            if (j.given == GV_MIXED) return mixed(std::index_sequence_for<K...>(), *x...);
            return ga::make_lazy_context(*x...);
        }, in);
    };
    if (j.carry == CR_SHARED) {
        using C = std::decay_t<decltype(make(in))>;
        C *c = (C *)kept<K...>(k);
        if (c && j.salt & 8) failing_copy(*c, j.salt >> 4);
        if (c) { lazy_between(4); evaluate(*c, ev, want, tol, "shared between tasks", j.repeats); }
        return d;
    }
    if (j.carry == CR_NESTED) {                                // a tuple with context and arguments, and a context made while another one lives
        auto t = std::apply([&](auto &... x) { return ga::make_lazy_context_tuple(*x...); }, in);
        auto other = std::apply([&](auto &... x) { return ga::make_lazy_context(*x...); }, in);
        std::apply([&](auto &... x) { (spoil(*x, j.salt), ...); }, in);
        lazy_between(5);
        auto r = std::apply([&](auto const &c, auto const &... a) { auto x = f(a...); auto y = other.eval(x); auto z = c.eval(x); return std::make_pair(y, z); }, t);
        lazy_done(LZ_EVAL);
        Value g1 = value(r.first), g2 = value(r.second);
        if (!agree(g1, want, tol) || !agree(g2, want, tol)) lazy_report("value", "two contexts with the same arguments gave " + show(g1) + " and " + show(g2) + " instead of " + show(want));
        return d;
    }
    carry(j, make, ev, in, want, tol);
    return d;
}
template<class... K> void lazy_prepare(Args const &k, K...) {
    int idx[4] = { exact_idx(k.a[0]), exact_idx(k.a[1]), exact_idx(k.a[2]), exact_idx((k.a[0] + 2 * k.a[2] + 1) % LIDX) };
    int n = 0;
    void *&s = kept<K...>(k);
    if (s) return;
    std::tuple<TypeOf<K>...> in{ K::make(idx[n++])... };
    s = std::apply([&](auto const &... x) { auto c = ga::make_lazy_context(x...); return (void *)new decltype(c)(c); }, in);
}
}
#define HX_LAZY(TOL, NAME, N, PARAMS, KS) HX_LAZY_(true, TOL, NAME, N, PARAMS, KS)
#define HX_LAZY_(MODEL, TOL, NAME, N, PARAMS, KS) { NAME, N, \
    [](hx::Args const &k) -> hx::uint64_t { auto f = [] PARAMS; return hx::lazy_site<MODEL>(k, f, TOL, HX_LIST KS); }, \
    [](hx::Args const &k) { hx::lazy_prepare(k, HX_LIST KS); } },
#define HX_LIST(...) __VA_ARGS__
#define HXL1(KA, ...) HX_LAZY(HX_RND, #__VA_ARGS__ " <" #KA ">", 1, (auto const &x) { return __VA_ARGS__; }, (KA()))
#define HXL2(KA, KB, ...) HX_LAZY(HX_RND, #__VA_ARGS__ " <" #KA "," #KB ">", 2, (auto const &x, auto const &y) { return __VA_ARGS__; }, (KA(), KB()))
#define HXL3(KA, KB, KC, ...) HX_LAZY(HX_RND, #__VA_ARGS__ " <" #KA "," #KB "," #KC ">", 3, (auto const &x, auto const &y, auto const &z) { return __VA_ARGS__; }, (KA(), KB(), KC()))
#define HXL4(KA, KB, KC, KD, ...) HX_LAZY(HX_RND, #__VA_ARGS__ " <" #KA "," #KB "," #KC "," #KD ">", 3, (auto const &x, auto const &y, auto const &z, auto const &w) { return __VA_ARGS__; }, (KA(), KB(), KC(), KD()))
#define HXA1(KA, ...) HX_LAZY(HX_TOL, #__VA_ARGS__ " <" #KA ">", 1, (auto const &x) { return __VA_ARGS__; }, (KA()))
#define HXA2(KA, KB, ...) HX_LAZY(HX_TOL, #__VA_ARGS__ " <" #KA "," #KB ">", 2, (auto const &x, auto const &y) { return __VA_ARGS__; }, (KA(), KB()))
#define HXD1(KA, ...) HX_LAZY_(false, HX_TOL, #__VA_ARGS__ " <" #KA ">", 1, (auto const &x) { return __VA_ARGS__; }, (KA()))
#define HXD2(KA, KB, ...) HX_LAZY_(false, HX_TOL, #__VA_ARGS__ " <" #KA "," #KB ">", 2, (auto const &x, auto const &y) { return __VA_ARGS__; }, (KA(), KB()))
#define HXD3(KA, KB, KC, ...) HX_LAZY_(false, HX_TOL, #__VA_ARGS__ " <" #KA "," #KB "," #KC ">", 3, (auto const &x, auto const &y, auto const &z) { return __VA_ARGS__; }, (KA(), KB(), KC()))
#define HX_TOL (std::is_same_v<Cf, float> ? 1e-3 : 1e-9)
#define HX_RND (std::is_same_v<Cf, float> ? 1e-4 : 1e-11)
