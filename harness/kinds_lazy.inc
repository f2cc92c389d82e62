namespace {
struct C3 { static auto make(int) { return c<3>; } };                         // inputs that store nothing
struct E1 { static auto make(int) { return e(c<1>); } };
struct K2 { static auto make(int) { return c<2> * e(c<1>) + c<5> * e(c<2>); } };
struct Vc { static auto make(int i) { return V::make(i) + c<2>; } };           // partly stored
struct Ec { static auto make(int i) { return Cf(hx::value_of(i, 1, 2, 4)) * e(c<2>) + e(c<1>); } };

struct Po_ { static auto make(int i) { return scalar(Cf(std::fabs(hx::value_of(i, 1, 2, 4)) + 0.5)); } };
}
