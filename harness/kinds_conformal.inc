#if DIM == 5
#define COORDS a, a + Cf(1), a - Cf(2)
#elif DIM == 4
#define COORDS a, a + Cf(1)
#else
#define COORDS a
#endif
namespace {
template<int Salt> struct Pt_ {
    static auto make(int idx) {
#if DIM == 5
        return point(Cf(hx::value_of(idx, 0, 3, Salt)), Cf(hx::value_of(idx, 1, 3, Salt)), Cf(hx::value_of(idx, 2, 3, Salt)));
#elif DIM == 4
        return point(Cf(hx::value_of(idx, 0, 2, Salt)), Cf(hx::value_of(idx, 1, 2, Salt)));
#else
        return point(Cf(hx::value_of(idx, 0, 1, Salt)));
#endif
    }
};
using Pt = Pt_<2>;
using Qt = Pt_<3>;
struct Ro { static auto make(int idx) { return op(Pt::make(idx), Qt::make(hx::next_index(idx, 4))); } };
struct Du { static auto make(int idx) { return undual(Ro::make(idx)); } };
struct Fl { static auto make(int idx) { return op(Ro::make(idx), ni); } };
struct Df { static auto make(int idx) { return undual(Fl::make(idx)); } };
struct Ta { static auto make(int idx) { return lcont(Pt::make(idx), op(op(Pt::make(idx), Qt::make(hx::next_index(idx, 2))), ni)); } };
struct Dt { static auto make(int idx) { return undual(Ta::make(idx)); } };
}
