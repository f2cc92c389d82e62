// The components of an expression, by its type and its stored data: an independent statement of what it holds.
#ifndef HX_COMPS_H
#define HX_COMPS_H
namespace hx {
struct Comp { std::uint64_t blade; double value; std::uint64_t dynamic; };   // dynamic: the possible grades of a blade known at run time
template<class T> double to_d(T const &v) { if constexpr (std::is_same_v<T, S>) return v.get(); else return (double)v; }
template<class Co, class E> struct Comps;
template<class Co, class C, class D> struct Comps<Co, ga::detail::component<C, D> > {
    template<class V, class B> static void run(V &v, B &b, std::vector<Comp> &o) {
        Comp x{};
        if constexpr (std::is_same_v<C, ga::detail::stored_value>) { x.value = to_d(*v); ++v; }
        else { ga::clifford_expression<Co, ga::detail::component<C, ga::detail::constant_basis_blade<ga::bitset_t(0)> > > s; x.value = to_d((Co)s); }
        blade((D *)nullptr, x, b);
        o.push_back(x);
    }
    template<ga::bitset_t K, class B> static void blade(ga::detail::constant_basis_blade<K> *, Comp &x, B &) { x.blade = K; }
    template<ga::bitset_t G, class B> static void blade(ga::detail::dynamic_basis_blade<G, ga::detail::stored_bitset> *, Comp &x, B &b) { x.blade = *b; x.dynamic = G; ++b; }
};
template<class Co, class A1, class A2, class... R> struct Comps<Co, ga::detail::add<A1, A2, R...> > {
    template<class V, class B> static void run(V &v, B &b, std::vector<Comp> &o) {
        Comps<Co, A1>::run(v, b, o);
        if constexpr (sizeof...(R) == 0) Comps<Co, A2>::run(v, b, o);
        else Comps<Co, ga::detail::add<A2, R...> >::run(v, b, o);
    }
};
template<class Co, class Ex> std::vector<Comp> components(ga::clifford_expression<Co, Ex> const &x) { Quiet q; std::vector<Comp> o; auto v = x.values().cbegin(); auto b = x.bitsets().cbegin(); Comps<Co, Ex>::run(v, b, o); return o; }
}
#endif
