// Traversals (C03): each site walks one expression with the callback of the current job.
#include "visitjob.h"
#include <functional>
namespace hx {
inline uint64_t dbits(double v) { uint64_t b; std::memcpy(&b, &v, 8); return b; }
template<class T> double to_d(T const &v) { if constexpr (std::is_same_v<T, S>) return v.get(); else return (double)v; }
// An independent statement of the components of an expression.
template<class Co, class E> struct Walk;
template<class Co, class C, class D> struct Walk<Co, ga::detail::component<C, D> > {
    template<class V, class B> static void run(V &v, B &b, std::vector<Visit> &o) {
        Visit x{};
        if constexpr (std::is_same_v<C, ga::detail::stored_value>) { x.value = dbits(to_d(*v)); ++v; x.vsrc = 1; }
        else { ga::clifford_expression<Co, ga::detail::component<C, ga::detail::constant_basis_blade<ga::bitset_t(0)> > > s; x.value = dbits(to_d((Co)s)); x.vsrc = 0; }
        blade((D *)nullptr, x, b);
        o.push_back(x);
    }
    template<ga::bitset_t K, class B> static void blade(ga::detail::constant_basis_blade<K> *, Visit &x, B &) { x.blade = K; x.bsrc = 0; }
    template<ga::bitset_t G, class B> static void blade(ga::detail::dynamic_basis_blade<G, ga::detail::stored_bitset> *, Visit &x, B &b) { x.blade = *b; x.bsrc = 1; ++b; }
};
template<class Co, class A1, class A2, class... R> struct Walk<Co, ga::detail::add<A1, A2, R...> > {
    template<class V, class B> static void run(V &v, B &b, std::vector<Visit> &o) {
        Walk<Co, A1>::run(v, b, o);
        if constexpr (sizeof...(R) == 0) Walk<Co, A2>::run(v, b, o);
        else Walk<Co, ga::detail::add<A2, R...> >::run(v, b, o);
    }
};
void dead_function_object();
struct Caller {                                            // a function object with state of its own
    VisitJob *j; int calls = 0; unsigned magic = 0xca11ab1e;
    explicit Caller(VisitJob &job) : j(&job) {}
    Caller(Caller const &o) : j(o.j), calls(o.calls) { o.alive(); }
    Caller(Caller &&o) : j(o.j), calls(o.calls) { o.alive(); o.magic = 0xdead; }
    ~Caller() { magic = 0xdead; }
    void alive() const { if (magic != 0xca11ab1e) dead_function_object(); }
    template<class T> void operator()(ga::bitset_t b, T const &v, ga::entry_source_t bs, ga::entry_source_t vs, bool &keep) { alive(); on_visit(*j, Visit{ b, dbits(to_d(v)), (int)bs, (int)vs }, ++calls, keep); alive(); }
    void operator()(ga::index_t i, bool &keep) { alive(); on_visit(*j, Visit{ (uint64_t)i, 0, 0, 0 }, ++calls, keep); alive(); }
};
template<class Run> void with_style(VisitJob &j, Run const &run) {
    try {
        switch (j.style % 4) {
        case 0: j.result = run(Caller(j)); break;
        case 1: { Caller c(j); j.result = run(std::ref(c)); if (c.calls != (int)j.seen.size()) j.state_wrong++; break; }
        case 2: { Caller c(j); j.result = run([c](auto &&... x) mutable { c(std::forward<decltype(x)>(x)...); }); break; }
        default: { Caller c(j); j.result = run(c); break; }
        }
        j.returned = true;
    }
    catch (...) { classify(j); }
}
template<class X> void walk_components(void const *p, VisitJob &j) {
    X const &x = *(X const *)p;
    uint64_t before = observe(x);
    with_style(j, [&](auto &&f) { return ga::for_each_component(x, std::forward<decltype(f)>(f)); });
    if (observe(x) != before) operand_changed(0, "seen after the traversal");
    check_visit(j);
}
template<class X> void walk_vectors(void const *p, VisitJob &j) {
    X const &x = *(X const *)p;
    uint64_t before = observe(x);
    with_style(j, [&](auto &&f) { return ga::for_each_basis_vector(x, std::forward<decltype(f)>(f)); });
    if (observe(x) != before) operand_changed(0, "seen after the traversal");
    check_visit(j);
}
template<class Co, class Ex> void wanted(ga::clifford_expression<Co, Ex> const &x, VisitJob &j) { Quiet q; auto v = x.values().cbegin(); auto b = x.bitsets().cbegin(); Walk<Co, Ex>::run(v, b, j.want); }
inline void wanted_vectors(uint64_t b, VisitJob &j) { for (int i = 0; i < 64; i++) if (b >> i & 1) j.want.push_back(Visit{ (uint64_t)i + 1, 0, 0, 0 }); }
template<class Co, class Ex> uint64_t visit_site(ga::clifford_expression<Co, Ex> const &x) {
    using X = ga::clifford_expression<Co, Ex>;
    VisitJob &j = vjob();
    wanted(x, j);
    j.object = &x; j.again = walk_components<X>;
    if (j.at >= 0) j.at %= (int)j.want.size();
    walk_components<X>(&x, j);
    return j.want.size();
}
template<class X> uint64_t vectors_site(X const &x) {
    VisitJob &j = vjob();
    if constexpr (std::is_integral_v<X>) wanted_vectors(x, j);
    else { VisitJob t; wanted(x, t); wanted_vectors(t.want[0].blade, j); }
    j.object = &x; j.again = walk_vectors<X>;
    if (j.at >= 0) j.at = j.want.empty() ? -1 : j.at % (int)j.want.size();
    walk_vectors<X>(&x, j);
    return j.want.size();
}
void zero_wrong(bool got);
// is_zero is a traversal that cancels at the first component above the tolerance.
template<class Co, class Ex> uint64_t zero_site(ga::clifford_expression<Co, Ex> const &x, double tol) {
    VisitJob t; wanted(x, t);
    bool want = true;
    for (auto &v : t.want) { double d; std::memcpy(&d, &v.value, 8); if (!(std::fabs(d) <= tol)) want = false; }
    uint64_t before = observe(x);
    bool got = ga::is_zero(x, Co(tol));
    if (observe(x) != before) operand_changed(0, "seen after is_zero()");
    if (got != want) zero_wrong(got);
    return want;
}
template<class K> auto const &operand(Args const &k, int i, std::unique_ptr<std::decay_t<decltype(K::make(0))> > &own) {
    if (k.mode >> i & 1) return *shared_slot<K>(k.a[i]);
    own.reset(new std::decay_t<decltype(K::make(0))>(K::make(k.a[i])));
    return *own;
}
}
#define HX_SITE1(FN, KA, ...) { #FN ": " #__VA_ARGS__ " <" #KA ">", 1, \
    [](hx::Args const &k) -> hx::uint64_t { std::unique_ptr<std::decay_t<decltype(KA::make(0))> > oa; auto const &a = hx::operand<KA>(k, 0, oa); (void)a; \
        auto f = [&]() -> decltype(auto) { return __VA_ARGS__; }; decltype(auto) x = f(); return hx::FN(x); }, \
    [](hx::Args const &k) { hx::prepare_one<KA>(k.a[0]); } },
#define HX_SITE2(FN, KA, KB, ...) { #FN ": " #__VA_ARGS__ " <" #KA "," #KB ">", 2, \
    [](hx::Args const &k) -> hx::uint64_t { std::unique_ptr<std::decay_t<decltype(KA::make(0))> > oa; std::unique_ptr<std::decay_t<decltype(KB::make(0))> > ob; auto const &a = hx::operand<KA>(k, 0, oa); auto const &b = hx::operand<KB>(k, 1, ob); (void)a; (void)b; \
        auto f = [&]() -> decltype(auto) { return __VA_ARGS__; }; decltype(auto) x = f(); return hx::FN(x); }, \
    [](hx::Args const &k) { hx::prepare_one<KA>(k.a[0]); hx::prepare_one<KB>(k.a[1]); } },
#define HX1(KA, ...) HX_SITE1(visit_site, KA, __VA_ARGS__)
#define HX2(KA, KB, ...) HX_SITE2(visit_site, KA, KB, __VA_ARGS__)
#define HXB(KA, ...) HX_SITE1(vectors_site, KA, __VA_ARGS__)
#define HXB2(KA, KB, ...) HX_SITE2(vectors_site, KA, KB, __VA_ARGS__)
#define HXZ(KA, TOL, ...) { "is_zero(" #__VA_ARGS__ ", " #TOL ") <" #KA ">", 1, \
    [](hx::Args const &k) -> hx::uint64_t { std::unique_ptr<std::decay_t<decltype(KA::make(0))> > oa; auto const &a = hx::operand<KA>(k, 0, oa); (void)a; auto x = __VA_ARGS__; return hx::zero_site(x, TOL); }, \
    [](hx::Args const &k) { hx::prepare_one<KA>(k.a[0]); } },
template<class T> std::uint64_t to_bits(T const &v) { return (std::uint64_t)(std::int64_t)(hx::to_d(v) * 37.0) & 0xffffffffffffull; }
