// Copies between expression types (C04: warnings, C05: contents), checked against an independent statement of them.
#include "copyjob.h"
#include "comps.h"
namespace hx {
template<class X> struct Coef { using type = X; };          // numbers
template<class X> constexpr bool is_number = true;
template<class Co, class Ex> constexpr bool is_number<ga::clifford_expression<Co, Ex> > = false;
template<class X, std::enable_if_t<is_number<X>, int> = 0> std::vector<Comp> components(X const &x) { Quiet q; return { Comp{ 0, to_d(x), 0 } }; }
template<class Co, class Ex> struct Coef<ga::clifford_expression<Co, Ex> > { using type = Co; };
template<class Co> double round_to(double v) { if constexpr (std::is_same_v<Co, S>) return v; else return (double)(Co)v; }

// Values around the tolerance in use.
template<class Co> double near_value(int fill, int i, double tol) {
    uint64_t h = sim::mix(sim::mix(0x77, (uint64_t)fill * 131), (uint64_t)i);
    double up = std::nextafter(tol, 1e300), dn = std::nextafter(tol, 0.0);
    if constexpr (std::is_same_v<Co, float>) { up = std::nextafter((float)tol, 1e30f); dn = std::nextafter((float)tol, 0.0f); }
    if constexpr (std::is_integral_v<Co>) { up = tol + 1; dn = tol; }
    double s = h >> 8 & 1 ? -1.0 : 1.0;
    if constexpr (!std::is_integral_v<Co>) {
        static double const extreme[] = { std::numeric_limits<double>::infinity(), 1.0e30, 1.0e-320, -0.0, 0.0, 3.0e-39, -0.0, 1.0e-45 };
        if (fill % 7 == 3 && (h >> 40 & 3) == 0) return s * extreme[h >> 44 & 7];
    }
    int small = fill % 3;                                  // most components within the tolerance, so that copies get through
    switch (h >> 16 & (small == 0 ? 7 : 15)) {
    case 0: return s * tol;
    case 1: return s * (h >> 24 & 3 ? dn : up);
    case 2: return s * value_of(NIDX + fill, i, 8, 2);
    case 3: return s * tol * 0.5;
    default: return h >> 30 & 3 ? 0.0 : s * dn;
    case 5: return small == 2 ? s * dn : s * value_of(fill % NORD, i, 8, 2);
    }
}
template<class Co, class X> void fill_near(X &x, int fill, double tol) {
    Quiet q; int i = 0;
    if constexpr (is_number<X>) { x = X(near_value<Co>(fill, i, tol)); return; }
    else for (auto &v : x.values()) { v = std::decay_t<decltype(v)>(near_value<Co>(fill, i++, tol)); }
}
template<class T> std::string show(std::vector<Comp> const &c, T const &) { std::ostringstream o; o.precision(17); for (auto &x : c) o << "(" << x.blade << ": " << x.value << ")"; return o.str(); }
inline bool same_comp(Comp const &a, Comp const &b) { return a.blade == b.blade && (a.value == b.value || (a.value != a.value && b.value != b.value)); }
template<class T> T by_return(T const &x) { return x; }
template<class T, class X> T convert_return(X const &x) { return x; }
template<class T> void keep(T const &x, std::vector<Comp> &got) { got = components(x); }
template<class T> void keep_value(T x, std::vector<Comp> &got) { got = components(x); }

// The tolerance as a value of several types.
template<class Co, class X, class T> void copy_within(X const &x, T &t, double tolv, int how) {
    struct Again { ~Again() { quiet_coef(true); } };
    Quiet q;
    bool plain = !(tolv < 1.0e9 && tolv == (double)(long)tolv);
    switch (std::is_integral_v<Co> || (how % 5 == 4 && plain) ? 0 : how % 5) {
    default: { Co tol(tolv); quiet_coef(false); Again a; ga::checked_trivial_copy(x, t, tol); break; }
    case 1: { quiet_coef(false); Again a; ga::checked_trivial_copy(x, t, tolv); break; }
    case 2: { auto tol = ga::scalar(Co(tolv)); quiet_coef(false); Again a; ga::checked_trivial_copy(x, t, tol); break; }
    case 3: { quiet_coef(false); Again a; ga::checked_trivial_copy(x, t, (float)tolv == tolv ? (float)tolv : tolv); break; }
    case 4: { quiet_coef(false); Again a; ga::checked_trivial_copy(x, t, (int)tolv); break; }
    }
}
template<class T, class X> void convert(CopyJob &j, int method, X &x, T &t, std::vector<Comp> &got) {
    X const &cx = x;
    switch (method) {
    case CM_IMPL_COPY: { T n = cx; got = components(n); break; }
    case CM_IMPL_MOVE: { T n = std::move(x); got = components(n); break; }
    case CM_IMPL_NONCONST: { T n(x); got = components(n); break; }
    case CM_ARG: if (j.fill & 1) keep<T>(cx, got); else keep_value<T>(cx, got); break;
    case CM_ASSIGN: t = cx; got = components(t); break;
    case CM_PUSH: { std::vector<T> v; v.reserve(2); v.push_back(cx); got = components(v[0]); break; }
    case CM_RETURN: { T n = convert_return<T>(cx); got = components(n); break; }
    }
}
// One copy of x, kept in t or in a new object; got: the components of what was made.
template<bool Un, class X, class T> void one_copy(CopyJob &j, int method, X &x, T &t, double tolv, std::vector<Comp> &got) {
    using Co = typename Coef<X>::type;
    X const &cx = x;
    try {
        j.cls = CC_OK; j.what.clear();
        switch (method) {
        case CM_CHECKED: ga::checked_trivial_copy(cx, t); got = components(t); break;
        case CM_CHECKED_TOL: copy_within<Co>(cx, t, tolv, j.fill); got = components(t); break;
        case CM_UNCHECKED: if constexpr (Un) { ga::trivial_copy(cx, t); got = components(t); } break;
        case CM_SELF:                                      // t holds a copy of x
            if constexpr (std::is_same_v<X, T> && !is_number<X>) {
                if constexpr (Un) { if (j.fill & 1) { ga::trivial_copy(t, t); got = components(t); break; } }
                ga::checked_trivial_copy(t, t); got = components(t);
            }
            break;
        default: if constexpr (!is_number<X>) convert<T>(j, method, x, t, got); break;
        }
    }
    catch (...) { copy_classify(j); }
}
constexpr bool into_target(int m) { return m == CM_CHECKED || m == CM_CHECKED_TOL || m == CM_UNCHECKED || m == CM_ASSIGN || m == CM_SELF; }
constexpr bool makes_new(int m) { return m == CM_IMPL_COPY || m == CM_IMPL_MOVE || m == CM_IMPL_NONCONST || m == CM_ARG || m == CM_PUSH || m == CM_RETURN || m == CM_ASSIGN; }

template<bool Un, class X, class T> uint64_t copy_once(CopyJob &j, X &x, T &t, bool mine) {
    using Co = typename Coef<X>::type; using CoT = typename Coef<T>::type;
    constexpr bool same_type = std::is_same_v<X, T>;
    double tolv = j.tol == 0 || j.method != CM_CHECKED_TOL ? to_d(ga::default_tolerance<Co>()) : tolerance_number(j.tol);
    if (j.method == CM_CHECKED_TOL) tolv = std::is_integral_v<Co> ? (double)(long)std::min(tolv, 1.0e6) : round_to<Co>(tolv);
    if (mine && j.fill) fill_near<Co>(x, j.fill, tolv);
    if constexpr (same_type) { if (j.method == CM_SELF) { Quiet q; t = x; } }
    std::vector<Comp> old = components(t), src = components(x), want = old, got;
    int method = j.method;
    uint64_t before = observe(x);
    bool reject = false, lossy = false;
    {
        std::vector<bool> used(src.size());
        for (size_t i = 0; i < want.size(); i++) {
            bool hit = false;
            for (size_t k = 0; k < src.size() && !hit; k++)
                if (!used[k] && src[k].dynamic == want[i].dynamic && (want[i].dynamic || src[k].blade == want[i].blade)) { used[k] = hit = true; want[i].value = round_to<CoT>(src[k].value); want[i].blade = src[k].blade; }
            if (!hit) { want[i].value = 0.0; if (want[i].dynamic) want[i].blade = 0; }
        }
        if (j.method != CM_UNCHECKED)
            for (size_t k = 0; k < src.size(); k++) if (!used[k]) { if (std::fabs(src[k].value) > tolv) reject = true; else if (src[k].value != 0.0) lossy = true; }
    }
    auto state = [&](char const *when) {
        if (j.cls == CC_OK) {
            if (got.size() != want.size()) copy_report("components", std::string("the copy has another number of components, ") + when);
            for (size_t i = 0; i < want.size(); i++) if (!same_comp(got[i], want[i])) copy_report("components", "the copy " + show(got, 0) + " should be " + show(want, 0) + " (source " + show(src, 0) + "), " + when);
        }
        else if (into_target(j.method)) {
            auto now = components(t);
            for (size_t i = 0; i < want.size(); i++) if (!same_comp(now[i], want[i]) && !same_comp(now[i], old[i]) && !(same_type && method == CM_ASSIGN)) copy_report("torn-target", "an interrupted copy left " + show(now, 0) + ", neither the old " + show(old, 0) + " nor the new " + show(want, 0) + " in component " + std::to_string(i) + ", " + when);
        }
        if (!(j.method == CM_IMPL_MOVE && j.cls == CC_OK) && observe(x) != before) copy_report("source-changed", std::string("the source changed, ") + when);
    };
    auto expect_plain = [&](char const *when) {
        if (j.cls == CC_REJECTED && reject) { j.rejected = true; return; }
        if (j.cls == CC_REJECTED) copy_report("wrong-rejection", "a copy that loses nothing above the tolerance was rejected (source " + show(src, 0) + ", target " + show(want, 0) + ", tolerance " + std::to_string(tolv) + "), " + when);
        if (j.cls != CC_OK) copy_report("spurious-exception", "another exception left the copy: " + j.what + ", " + when);
        if (reject) copy_report("lost-component", "the copy dropped a component above the tolerance without an exception (source " + show(src, 0) + ", copy " + show(got, 0) + ", tolerance " + std::to_string(tolv) + "), " + when);
    };
    long live = live_objects_of_task();
    if (j.at) arm_copy_fault(j.at, (FaultKind)j.fault, j.id);
    one_copy<Un>(j, method, x, t, tolv, got);
    int seen = disarm_copy_fault(); (void)seen;
    bool hit = j.at && copy_fault_fired();
    if (live_objects_of_task() != live) copy_report("leak", "coefficients made by the copy were not destroyed");
    if (hit) {
        copy_phase(CP_FAULT); j.interrupted = true;
        int c = j.fault == FK_BADALLOC ? CC_BADALLOC : j.fault == FK_CUSTOM ? CC_CUSTOM : CC_INT;
        if (j.cls == CC_OK) copy_report("swallowed", "the failure of a coefficient copy did not reach the caller");
        if (j.cls != c || !j.what.empty()) copy_report("swallowed", "another exception than the one thrown by the coefficient reached the caller: " + j.what);
        state("after a coefficient copy failed");
        if (!(method == CM_IMPL_MOVE && observe(x) != before)) {
            copy_phase(CP_RETRY);
            one_copy<Un>(j, method, x, t, tolv, got);
            expect_plain("when repeated after a coefficient copy had failed");
            state("when repeated after a coefficient copy had failed");
        }
    }
    else {
        expect_plain("at the first attempt");
        state("after the copy");
    }
    if (j.rejected) {
        copy_phase(CP_REJECT);
        if (into_target(method)) {                         // the cause of the rejection goes away: all dropped components become zero
            old = components(t);
            reject = false;
            int m = j.method; j.method = CM_CHECKED_TOL; double was = tolv; tolv = std::numeric_limits<double>::infinity();
            copy_phase(CP_RETRY);
            one_copy<Un>(j, CM_CHECKED_TOL, x, t, tolv, got);
            expect_plain("when repeated with a tolerance that admits it");
            state("when repeated with a tolerance that admits it");
            j.method = m; tolv = was;
        }
    }
    else if (lossy) copy_phase(CP_ACCEPT_LOSSY);
    copy_phase(CP_DONE);
    uint64_t d = sim::mix(j.cls, hit * 2 + j.rejected);
    for (auto &c : components(t)) { uint64_t b; std::memcpy(&b, &c.value, 8); d = sim::mix(sim::mix(d, c.blade), b); }
    if (live_objects_of_task() != live) copy_report("leak", "coefficients made by the copy were not destroyed");
    return d;
}
template<class K> using TypeOf = std::decay_t<decltype(K::make(0))>;
template<class X, class T> uint64_t kind_of(int method) {
    if (std::is_same_v<X, T> || is_number<X> || !makes_new(method)) return 0;
    std::string n = std::string(typeid(X).name()) + ">" + typeid(T).name() + (method == CM_IMPL_MOVE ? ">move" : ">copy");
    return sim::hash_bytes(n.data(), n.size()) | 1;
}
// X: type of the source. get: makes the source or gives the shared one.
template<bool Un, class KT, class X> uint64_t copy_site(X &x, bool mine) {
    CopyJob &j = cjob();
    using T = TypeOf<KT>;
    T t = KT::make(j.init);
    return copy_once<Un, X, T>(j, x, t, mine);
}
template<bool Un, class KT, class X> bool copy_query() {
    CopyJob &j = cjob();
    if (!j.query) return false;
    using T = TypeOf<KT>;
    j.kind = kind_of<X, T>(j.method);
    j.can_fail = std::is_same_v<typename Coef<T>::type, S>;
    j.methods = (1 << CM_N) - 1;
    if (!Un) j.methods &= ~(1 << CM_UNCHECKED);
    if (!std::is_same_v<X, T>) j.methods &= ~(1 << CM_SELF);
    if (is_number<X>) j.methods &= 1 << CM_CHECKED | 1 << CM_CHECKED_TOL | 1 << CM_UNCHECKED;
    return true;
}
}
// HXP: checked copies only; HXU: also without a check. KA: source operand, KT: target.
#define HX_COPY(UN, KT, KA, ...) { #__VA_ARGS__ " <" #KA "> to " #KT, 1, \
    [](hx::Args const &k) -> hx::uint64_t { \
        auto f = [](auto const &a) { (void)a; return __VA_ARGS__; }; \
        using X = std::decay_t<decltype(f(KA::make(0)))>; \
        if (hx::copy_query<UN, KT, X>()) return 0; \
        if constexpr (std::is_same_v<X, hx::TypeOf<KA> >) if (k.mode & 1) return hx::copy_site<UN, KT>(*hx::shared_slot<KA>(k.a[0]), false); \
        auto x = f(KA::make(k.a[0])); \
        return hx::copy_site<UN, KT>(x, true); }, \
    [](hx::Args const &k) { hx::prepare_one<KA>(k.a[0]); } },
#define HXP(KT, KA, ...) HX_COPY(false, KT, KA, __VA_ARGS__)
#define HXU(KT, KA, ...) HX_COPY(true, KT, KA, __VA_ARGS__)
