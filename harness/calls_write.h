// Writing calls (C02): each site writes one expression to the stream of the current job.
#include "writejob.h"
#include <array>
namespace hx {
struct Names { std::string const *name; std::size_t count; };
// An independent statement of the text of an expression whose components are constants, stored values and blades.
template<class E> struct Text { template<class V, class B> static bool run(std::ostream &, V &, B &, Names) { return false; } };
inline void blade_text(std::ostream &o, uint64_t b, Names n) {
    std::string t;
    bool first = true;
    for (std::size_t i = 0; i < 64; i++) if (b >> i & 1) { if (!first) t += '^'; first = false; t += i < n.count ? n.name[i] : "e" + std::to_string(i + 1); }
    if (!b) t = "1";
    o << t;
}
template<ga::default_integral_t C> struct Text<ga::detail::constant_value<C> > { template<class V, class B> static bool run(std::ostream &o, V &, B &, Names) { o << '<' << C << '>'; return true; } };
template<> struct Text<ga::detail::stored_value> {
    template<class V, class B> static bool run(std::ostream &o, V &v, B &, Names) {
        auto const &x = *v; ++v;
        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, S>) { double d = x.get(); if (d >= 0) o << d; else o << '(' << d << ')'; }
        else { if (x >= 0) o << x; else o << '(' << x << ')'; }
        return true;
    }
};
template<ga::bitset_t C> struct Text<ga::detail::constant_basis_blade<C> > { template<class V, class B> static bool run(std::ostream &o, V &, B &, Names n) { o << '<'; blade_text(o, C, n); o << '>'; return true; } };
template<ga::bitset_t G> struct Text<ga::detail::dynamic_basis_blade<G, ga::detail::stored_bitset> > { template<class V, class B> static bool run(std::ostream &o, V &, B &b, Names n) { blade_text(o, *b, n); ++b; return true; } };
template<class C, class D> struct Text<ga::detail::component<C, D> > {
    template<class V, class B> static bool run(std::ostream &o, V &v, B &b, Names n) {
        if (!Text<C>::run(o, v, b, n)) return false;
        o << " * ";
        return Text<D>::run(o, v, b, n);
    }
};
template<class A1, class A2, class... R> struct Text<ga::detail::add<A1, A2, R...> > {
    template<class V, class B> static bool run(std::ostream &o, V &v, B &b, Names n) {
        if (!Text<A1>::run(o, v, b, n)) return false;
        o << " + ";
        if constexpr (sizeof...(R) == 0) return Text<A2>::run(o, v, b, n);
        else return Text<ga::detail::add<A2, R...> >::run(o, v, b, n);
    }
};
template<class Co, class Ex> std::string text_of(ga::clifford_expression<Co, Ex> const &x, std::ostream const &like, Names names) {
    std::ostringstream o;
    o.copyfmt(like); o.exceptions(std::ios_base::goodbit); o.width(0); o.tie(nullptr); o.unsetf(std::ios_base::unitbuf);
    auto v = x.values().cbegin();
    auto b = x.bitsets().cbegin();
    return Text<Ex>::run(o, v, b, names) ? o.str() : std::string();
}
// The names given to write(): 1 those of the algebra, 2 single letters, 3 long ones, 4 with an empty name and a name that has a NUL and a line end, 5 fewer than the basis has, 6 more than it has.
template<std::size_t M, std::size_t N> std::array<std::string, M> names_for(int how, std::array<std::string, N> const &own) {
    std::array<std::string, M> n;
    for (std::size_t i = 0; i < M; i++) n[i] = i < N ? own[i] : "unused";
    if (how == 2) for (std::size_t i = 0; i < M; i++) n[i] = std::string(1, (char)('a' + i));
    if (how == 3) for (std::size_t i = 0; i < M; i++) n[i] = "a basis vector whose name is too long for any small buffer, number " + std::to_string(i) + (i % 2 ? "" : " (even)");
    if (how == 4) for (std::size_t i = 0; i < M; i++) n[i] = i % 2 ? std::string() : std::string("\0x%d\n", 5);
    return n;
}
struct Unchanged {                       // the expression written stays as it was, however the call ends
    std::string what; uint64_t before; uint64_t (*see_)(void const *); void const *p;
    ~Unchanged() { if (see_(p) != before) operand_changed(0, "seen after it was written"); }
};
template<class X, std::size_t M, class Ins> uint64_t write_named(X const &x, std::array<std::string, M> const &names, char const *golden, Ins const &insert) {
    WriteJob &j = job();
    if (j.expected) {
        Quiet q;
        *j.expected = golden ? (j.how < 2 && j.default_format ? std::string(golden) : std::string()) : text_of(x, *j.os, Names{ names.data(), M });
    }
    auto see_ = [](void const *p) { return observe(*(X const *)p); };
    Unchanged u{ "", observe(x), see_, &x };
    std::ostream &r = j.how == 0 ? insert(*j.os, x) : ga::write(*j.os, x, names);
    if (&r != j.os) j.wrong_stream = true;
    return 0;
}
template<class X, std::size_t N, class Ins> uint64_t write_site(X const &x, std::array<std::string, N> const &own, char const *golden, Ins const &insert) {
    switch (job().how) {
    case 5: return write_named(x, names_for<1>(1, own), golden, insert);
    case 6: return write_named(x, names_for<N + 2>(1, own), golden, insert);
    default: return write_named(x, names_for<N>(job().how, own), golden, insert);
    }
}
template<class K> auto const &operand(Args const &k, int i, std::unique_ptr<std::decay_t<decltype(K::make(0))> > &own) {
    if (k.mode >> i & 1) return *shared_slot<K>(k.a[i]);
    own.reset(new std::decay_t<decltype(K::make(0))>(K::make(k.a[i])));
    return *own;
}
}
#define HX_INSERT [](std::ostream &o, auto const &x) -> std::ostream & { return o << x; }
#define HXG(KA, GOLDEN, ...) { #__VA_ARGS__ " <" #KA ">", 1, \
    [](hx::Args const &k) -> hx::uint64_t { std::unique_ptr<std::decay_t<decltype(KA::make(0))> > oa; auto const &a = hx::operand<KA>(k, 0, oa); (void)a; \
        auto f = [&]() -> decltype(auto) { return __VA_ARGS__; }; decltype(auto) x = f(); return hx::write_site(x, basis_vectors_names, GOLDEN, HX_INSERT); }, \
    [](hx::Args const &k) { hx::prepare_one<KA>(k.a[0]); } },
#define HX1(KA, ...) HXG(KA, nullptr, __VA_ARGS__)
#define HX2(KA, KB, ...) { #__VA_ARGS__ " <" #KA "," #KB ">", 2, \
    [](hx::Args const &k) -> hx::uint64_t { std::unique_ptr<std::decay_t<decltype(KA::make(0))> > oa; std::unique_ptr<std::decay_t<decltype(KB::make(0))> > ob; auto const &a = hx::operand<KA>(k, 0, oa); auto const &b = hx::operand<KB>(k, 1, ob); (void)a; (void)b; \
        auto f = [&]() -> decltype(auto) { return __VA_ARGS__; }; decltype(auto) x = f(); return hx::write_site(x, basis_vectors_names, nullptr, HX_INSERT); }, \
    [](hx::Args const &k) { hx::prepare_one<KA>(k.a[0]); hx::prepare_one<KB>(k.a[1]); } },
