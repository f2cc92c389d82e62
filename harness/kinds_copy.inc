// Targets of copies.
#ifndef SRC_CF
#define SRC_CF OTHER_CF
#endif
namespace {
template<class M> M target_of(int idx) { M m; hx::assign_all(m, (hx::NIDX + 40) + idx, 4); return m; }
struct TM { static auto make(int i) { return target_of<full_multivector_t<Cf, DIM> >(i); } };
struct TV { static auto make(int i) { return target_of<full_vector_t<Cf, DIM> >(i); } };
struct T2 { static auto make(int i) { return target_of<full_kvector_t<Cf, DIM, 2> >(i); } };
struct T02 { static auto make(int i) { return target_of<full_multivector_t<Cf, DIM, 0, 2> >(i); } };
struct T1N { static auto make(int i) { return target_of<full_multivector_t<Cf, DIM, 1, DIM> >(i); } };
struct TP { static auto make(int i) { return target_of<full_kvector_t<Cf, DIM, DIM> >(i); } };
struct TS { static auto make(int i) { return scalar(Cf(hx::value_of((hx::NIDX + 40) + i, 0, 1, 4))); } };
struct TD { static auto make(int i) { return Cf(hx::value_of((hx::NIDX + 40) + i, 0, 1, 4)) * e(1 + i % DIM); } };
struct TDO { static auto make(int i) { return OTHER_CF(hx::value_of((hx::NIDX + 40) + i, 0, 1, 4)) * e(1 + i % DIM); } };
struct Dbo { static auto make(int i) { return SRC_CF(hx::value_of(i, 1, 3, 5)) * e(1 + i % DIM); } };
struct TDB { static auto make(int i) { return Cf(hx::value_of((hx::NIDX + 40) + i, 0, 1, 4)) * (e(1 + i % DIM) ^ e(1 + (i + 1) % DIM)); } };
struct TSD { static auto make(int i) { return TS::make(i) + TD::make(i + 1); } };
struct TVD { static auto make(int i) { return TV::make(i) + TD::make(i + 1); } };
struct TMD { static auto make(int i) { return TM::make(i) + TD::make(i + 1); } };
struct TDD { static auto make(int i) { return TD::make(i + 1) + TDB::make(i); } };
struct TE1 { static auto make(int i) { return Cf(hx::value_of((hx::NIDX + 40) + i, 0, 1, 4)) * e(c<1>); } };
struct TMO { static auto make(int i) { return target_of<full_multivector_t<OTHER_CF, DIM> >(i); } };
struct TVO { static auto make(int i) { return target_of<full_vector_t<OTHER_CF, DIM> >(i); } };
}
