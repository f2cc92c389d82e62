// A small executable model of the algebra, independent of the library: multivectors as maps from basis blades to
// doubles, products from the metric matrix. The sites of C06 are evaluated on it to know what the value has to be.
#ifndef HX_REFMODEL_H
#define HX_REFMODEL_H
#include "comps.h"
#include <cmath>
#include <map>
namespace hx {
namespace {                                                // one model per translation unit: the metric differs
struct Ref { std::map<uint64_t, double> m; };
template<class Co, class Ex> Ref ref_of(ga::clifford_expression<Co, Ex> const &x) { Ref r; for (auto &c : components(x)) r.m[c.blade] += c.value; return r; }
inline Ref const &ref_of(Ref const &x) { return x; }
inline double ref_metric(int i, int j) {                   // basis vectors count from 0
    static char const name[] = HX_STR(ALG);
    if (std::strcmp(name, "gageneral") == 0) { static double const g[3][3] = { { 0, 1, 0 }, { 1, 0, 0 }, { 0, 0, 2 } }; return g[i][j]; }
    int D = name[2] - '0';
    switch (name[3]) {
    case 'c': return i < D || j < D ? i == j : i == j ? 0 : -1;
    case 'm': return i != j ? 0 : i == D + 1 ? -1 : 1;
    case 'p': return i != j || i == D ? 0 : 1;
    default: return i == j;                                // Euclidean and homogeneous
    }
}
inline int ref_grade(uint64_t b) { return __builtin_popcountll(b); }
inline void ref_add(Ref &r, uint64_t b, double v) { if (v != 0) r.m[b] += v; }
inline int ref_swaps(uint64_t a, uint64_t b) { int n = 0; for (a >>= 1; a; a >>= 1) n += ref_grade(a & b); return n; }
inline Ref ref_wedge1(int i, Ref const &x) {               // e_i ^ x
    Ref r;
    for (auto &t : x.m) if (!(t.first >> i & 1)) ref_add(r, t.first | 1ull << i, ref_grade(t.first & ((1ull << i) - 1)) & 1 ? -t.second : t.second);
    return r;
}
inline Ref ref_contract1(int i, Ref const &x) {            // e_i _| x
    Ref r;
    for (auto &t : x.m) { int k = 0; for (int j = 0; j < 12; j++) if (t.first >> j & 1) { double g = ref_metric(i, j); ref_add(r, t.first & ~(1ull << j), (k++ & 1 ? -g : g) * t.second); } }
    return r;
}
inline Ref ref_sum(Ref a, Ref const &b, double s = 1) { for (auto &t : b.m) a.m[t.first] += s * t.second; return a; }
inline Ref ref_scale(Ref a, double s) { for (auto &t : a.m) t.second *= s; return a; }
inline Ref ref_gp_blade(uint64_t a, Ref const &x) {        // (e_i ^ a') x = e_i (a' x) - (e_i _| a') x
    if (!a) return x;
    int i = __builtin_ctzll(a);
    uint64_t rest = a & ~(1ull << i);
    Ref y = ref_gp_blade(rest, x);
    Ref r = ref_sum(ref_wedge1(i, y), ref_contract1(i, y));
    Ref one; one.m[rest] = 1;
    for (auto &t : ref_contract1(i, one).m) r = ref_sum(r, ref_gp_blade(t.first, x), -t.second);
    return r;
}
inline Ref ref_gp(Ref const &a, Ref const &b) { Ref r; for (auto &t : a.m) r = ref_sum(r, ref_gp_blade(t.first, b), t.second); return r; }
template<class Keep> Ref ref_product(Ref const &a, Ref const &b, Keep keep) {       // graded parts of the geometric product
    Ref r;
    for (auto &s : a.m) for (auto &t : b.m) {
        Ref x, y; x.m[s.first] = s.second; y.m[t.first] = t.second;
        for (auto &u : ref_gp(x, y).m) if (keep(ref_grade(s.first), ref_grade(t.first), ref_grade(u.first))) ref_add(r, u.first, u.second);
    }
    return r;
}
template<class Sign> Ref ref_signs(Ref a, Sign neg) { for (auto &t : a.m) if (neg(ref_grade(t.first))) t.second = -t.second; return a; }
inline double ref_scalar(Ref const &a) { for (auto &t : a.m) if (t.first && t.second != 0) sim::violation("harness", "the reference model was asked for a function of a non-scalar"); auto i = a.m.find(0); return i == a.m.end() ? 0 : i->second; }
inline Ref ref_make(double v) { Ref r; r.m[0] = v; return r; }

inline Ref ref_op(Ref const &a, Ref const &b) { return ref_product(a, b, [](int r, int s, int g) { return g == r + s; }); }
inline Ref ref_div(Ref const &a, Ref const &b) { return ref_scale(a, 1 / ref_scalar(b)); }
inline Ref ref_minus(Ref const &a, Ref const &b) { return ref_sum(a, b, -1); }
inline Ref ref_plus(Ref const &a, Ref const &b) { return ref_sum(a, b); }
#define HX_REF_OPERATOR(OP, F) \
    inline Ref operator OP(Ref const &a, Ref const &b) { return F(a, b); } \
    template<class Co, class Ex> Ref operator OP(Ref const &a, ga::clifford_expression<Co, Ex> const &b) { return F(a, ref_of(b)); } \
    template<class Co, class Ex> Ref operator OP(ga::clifford_expression<Co, Ex> const &a, Ref const &b) { return F(ref_of(a), b); }
HX_REF_OPERATOR(+, ref_plus)
HX_REF_OPERATOR(-, ref_minus)
HX_REF_OPERATOR(*, ref_gp)
HX_REF_OPERATOR(^, ref_op)
HX_REF_OPERATOR(/, ref_div)
template<class Co, class C> Ref operator/(Ref const &a, ga::scalar_clifford_expression<Co, C> const &b) { return ref_div(a, ref_of(b)); }
inline Ref operator+(Ref const &a) { return a; }
inline Ref operator-(Ref const &a) { return ref_scale(a, -1); }
inline Ref operator~(Ref const &a) { return ref_signs(a, [](int g) { return g * (g - 1) / 2 & 1; }); }
}
}
namespace ga {
#define HX_REF_PRODUCT(NAME, COND) \
    template<class M> static hx::Ref NAME(hx::Ref const &a, hx::Ref const &b, metric_space<M> const &) { return hx::ref_product(a, b, [](int r, int s, int g) { (void)r; (void)s; (void)g; return COND; }); }
HX_REF_PRODUCT(gp, true)
HX_REF_PRODUCT(lcont, g == s - r)
HX_REF_PRODUCT(rcont, g == r - s)
HX_REF_PRODUCT(dot, g == (r > s ? r - s : s - r))
HX_REF_PRODUCT(hip, r && s && g == (r > s ? r - s : s - r))
HX_REF_PRODUCT(sp, g == 0)
static hx::Ref reverse(hx::Ref const &a) { return ~a; }
static hx::Ref involute(hx::Ref const &a) { return hx::ref_signs(a, [](int g) { return g & 1; }); }
static hx::Ref conjugate(hx::Ref const &a) { return hx::ref_signs(a, [](int g) { return g * (g + 1) / 2 & 1; }); }
template<class M> static hx::Ref rnorm_sqr(hx::Ref const &a, metric_space<M> const &mtr) { return sp(a, ~a, mtr); }
static hx::Ref sqrt(hx::Ref const &a) { return hx::ref_make(std::sqrt(hx::ref_scalar(a))); }
static hx::Ref exp(hx::Ref const &a) { return hx::ref_make(std::exp(hx::ref_scalar(a))); }
static hx::Ref sin(hx::Ref const &a) { return hx::ref_make(std::sin(hx::ref_scalar(a))); }
static hx::Ref cos(hx::Ref const &a) { return hx::ref_make(std::cos(hx::ref_scalar(a))); }
template<class Co, class C> static hx::Ref pow(hx::Ref const &a, scalar_clifford_expression<Co, C> const &b) { return hx::ref_make(std::pow(hx::ref_scalar(a), hx::ref_scalar(hx::ref_of(b)))); }
}
#endif
