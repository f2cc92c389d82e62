// Included after the library's headers: turns results into 64-bit observations and runs library calls as "sites".
#ifndef HX_OBSERVE_H
#define HX_OBSERVE_H
#include "observe_site.h"

namespace hx {

template<class X> uint64_t see(uint64_t h, std::vector<X> const &t);
struct Quiet { Quiet() { quiet_coef(true); } ~Quiet() { quiet_coef(false); } };

inline uint64_t see(uint64_t h, double v) { uint64_t b; std::memcpy(&b, &v, 8); return sim::mix(h, b); }
inline uint64_t see(uint64_t h, float v) { uint32_t b; std::memcpy(&b, &v, 4); return sim::mix(h, b); }
inline uint64_t see(uint64_t h, long double v) { return see(h, (double)v); }
inline uint64_t see(uint64_t h, S const &v) { return see(h, v.get()); }
inline uint64_t see(uint64_t h, std::string const &v) { return sim::mix(h, sim::hash_bytes(v.data(), v.size())); }
template<class I, std::enable_if_t<std::is_integral_v<I> || std::is_enum_v<I>, int> = 0>
uint64_t see(uint64_t h, I v) { return sim::mix(h, (uint64_t)(long long)v); }
template<class... X> uint64_t see(uint64_t h, std::tuple<X...> const &t);
template<class A_, class B_> uint64_t see(uint64_t h, std::pair<A_, B_> const &t);
template<class Co, class Ex> uint64_t see(uint64_t h, ga::clifford_expression<Co, Ex> const &x) {
    auto &&vs = x.values();
    for (auto const &v : vs) h = see(h, v);
    auto &&bs = x.bitsets();
    for (auto const &b : bs) h = sim::mix(h, (uint64_t)b);
    if constexpr (std::is_convertible_v<ga::clifford_expression<Co, Ex>, Co> && ga::detail::count_stored_values_v<Ex> == 0) {
        if constexpr (ga::detail::is_constant_expression_v<Ex>) h = see(h, (double)(Co)x);
    }
    return h;
}
template<class X> uint64_t see(uint64_t h, ga::grade_result<X> const &g) {
    h = sim::mix(h, (uint64_t)(long long)g.flag());
    if constexpr (std::is_same_v<X, ga::scalar_clifford_expression<ga::grade_t, ga::detail::stored_value>>) h = sim::mix(h, (uint64_t)(long long)(ga::grade_t)g);
    return h;
}
template<class... X> uint64_t see(uint64_t h, std::tuple<X...> const &t) { std::apply([&](auto const &... e) { ((h = see(h, e)), ...); }, t); return h; }
template<class A_, class B_> uint64_t see(uint64_t h, std::pair<A_, B_> const &t) { return see(see(h, t.first), t.second); }
template<class X> uint64_t see(uint64_t h, std::vector<X> const &t) { for (auto const &e : t) h = see(h, e); return h; }
template<class X> uint64_t observe(X const &x) { Quiet q; return see(0x1234567, x); }

template<class T> T as_coefficient(double v) { if constexpr (std::is_integral_v<T>) { if (!(v > -1.0e9 && v < 1.0e9)) return T(3); } return T(v); }
template<class T> T coefficient_of(int idx, int comp, int n, int salt) { return as_coefficient<T>(value_of(idx, comp, n, salt)); }
// Gives every stored coefficient of an expression a value.
template<class X> void assign_all(X &x, int idx, int salt) {
    int n = 0, i = 0;
    for (auto &v : x.values()) { (void)v; n++; }
    for (auto &v : x.values()) { v = as_coefficient<std::decay_t<decltype(v)>>(value_of(idx, i++, n, salt)); }
}

template<class K> auto *&shared_slot(int idx) { using Ty = std::decay_t<decltype(K::make(0))>; static Ty *slot[NIDX]; return slot[idx]; }
template<class K> void prepare_one(int idx) { auto *&p = shared_slot<K>(idx); using Ty = std::decay_t<decltype(K::make(0))>; if (!p) p = new Ty(K::make(idx)); }

// Calls f in a frame of its own, so that what its temporaries leave behind is dead stack afterwards.
template<class F, class... A> [[gnu::noinline]] decltype(auto) call_apart(F const &f, A &... a) { return f(a...); }

uint64_t outcome_of_exception(char const *type_name);

template<class F> uint64_t guarded(F f) {
    try { return f(); }
    catch (std::exception const &e) { return outcome_of_exception(typeid(e).name()); }
}

void operand_changed(int which, char const *when);
}
#endif
