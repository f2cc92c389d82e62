#if DIM == 4
#define COORDS a, a + Cf(1), a - Cf(2)
#else
#define COORDS a, a + Cf(1)
#endif
namespace {
template<int Salt> struct Pt_ {
    static auto make(int idx) {
#if DIM == 4
        return point(Cf(hx::value_of(idx, 0, 3, Salt)), Cf(hx::value_of(idx, 1, 3, Salt)), Cf(hx::value_of(idx, 2, 3, Salt)));
#else
        return point(Cf(hx::value_of(idx, 0, 2, Salt)), Cf(hx::value_of(idx, 1, 2, Salt)));
#endif
    }
};
using Pt = Pt_<2>;
using Qt = Pt_<3>;
struct Dir { static auto make(int idx) {
#if DIM == 4
    return euclidean_vector(Cf(hx::value_of(idx, 0, 3, 9)), Cf(hx::value_of(idx, 1, 3, 9)), Cf(hx::value_of(idx, 2, 3, 9)));
#else
    return euclidean_vector(Cf(hx::value_of(idx, 0, 2, 9)), Cf(hx::value_of(idx, 1, 2, 9)));
#endif
} };
struct Ln { static auto make(int idx) { return op(Pt::make(idx), Qt::make(hx::next_index(idx, 4))); } };
}
