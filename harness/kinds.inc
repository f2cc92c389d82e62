// Operand kinds of the algebra whose names are in scope (SCALAR: coefficient type, DIM: number of basis vectors).
namespace {
using Cf = SCALAR;
template<int Salt> struct Vec_ {
    static auto make(int idx) {
#if DIM == 1
        return vector(hx::coefficient_of<Cf>(idx, 0, 1, Salt));
#elif DIM == 2
        return vector(hx::coefficient_of<Cf>(idx, 0, 2, Salt), hx::coefficient_of<Cf>(idx, 1, 2, Salt));
#elif DIM == 3
        return vector(hx::coefficient_of<Cf>(idx, 0, 3, Salt), hx::coefficient_of<Cf>(idx, 1, 3, Salt), hx::coefficient_of<Cf>(idx, 2, 3, Salt));
#elif DIM == 4
        return vector(hx::coefficient_of<Cf>(idx, 0, 4, Salt), hx::coefficient_of<Cf>(idx, 1, 4, Salt), hx::coefficient_of<Cf>(idx, 2, 4, Salt), hx::coefficient_of<Cf>(idx, 3, 4, Salt));
#else
        return vector(hx::coefficient_of<Cf>(idx, 0, 5, Salt), hx::coefficient_of<Cf>(idx, 1, 5, Salt), hx::coefficient_of<Cf>(idx, 2, 5, Salt), hx::coefficient_of<Cf>(idx, 3, 5, Salt), hx::coefficient_of<Cf>(idx, 4, 5, Salt));
#endif
    }
};
using V = Vec_<0>;                                                    // vectors
using W = Vec_<1>;
struct Bl { static auto make(int idx) { return op(V::make(idx), W::make(hx::next_index(idx, 5))); } };     // 2-blades
struct Ve { static auto make(int idx) { return gp(V::make(idx), W::make(hx::next_index(idx, 3))); } };     // even versors
struct Mv { static auto make(int idx) { full_multivector_t<Cf, DIM> m; hx::assign_all(m, idx, 2); return m; } };
struct Sc { static auto make(int idx) { return scalar(hx::coefficient_of<Cf>(idx, 0, 1, 3)); } };              // scalar expressions
struct Nt { static auto make(int idx) { return hx::coefficient_of<Cf>(idx, 1, 2, 4); } };                      // native coefficients
struct Po { static auto make(int idx) { return hx::as_coefficient<Cf>(std::fabs(hx::value_of(idx, 1, 2, 4)) + 0.125); } };   // positive native coefficients
struct Db { static auto make(int idx) { return hx::coefficient_of<Cf>(idx, 1, 3, 5) * e(1 + idx % DIM); } };   // runtime basis vectors
struct Ub { static auto make(int idx) { return e(1 + idx % DIM); } };
struct Dz {                                                             // a runtime basis blade and its coefficient, set by hand
    static auto make(int idx) {
        static ga::bitset_t const blades[] = { 0, 1, (ga::bitset_t)(1ull << 40 | 3), (ga::bitset_t)~0ull, (ga::bitset_t)(1ull << 63), 5, (ga::bitset_t)0xffff0000ull, 2 };
        auto m = Cf(1.0) * e(1 + idx % DIM);
        hx::Quiet q;
        *m.bitsets().begin() = blades[idx % 8];
        *m.values().begin() = idx % 3 ? Cf(0.0) : hx::coefficient_of<Cf>(idx, 0, 2, 9);
        return m;
    }
};
struct Ct { static auto make(int idx) { std::vector<Cf> q; for (int i = 0; i < DIM; i++) q.push_back(hx::coefficient_of<Cf>(idx, i, DIM, 0)); return q; } };   // coordinates in a container
struct Cp { static auto make(int idx) { auto q = Ct::make(idx); q.pop_back(); return q; } };
struct Cq { static auto make(int idx) { auto q = Cp::make(idx); q.pop_back(); return q; } };
struct Iv { static auto make(int idx) { full_vector_t<int, DIM> m; hx::assign_all(m, idx, 6); return m; } };
struct Fv { static auto make(int idx) { full_vector_t<float, DIM> m; hx::assign_all(m, idx, 7); return m; } };
struct Hv { static auto make(int idx) { auto m = V::make(idx); return m + hx::coefficient_of<Cf>(idx, 2, 3, 8); } };   // mixed grades
}
