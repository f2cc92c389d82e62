// Other coefficient types next to the main one (built-in types only).
HX2(Iv, V, gp(a, b)) HX2(Fv, V, op(a, b)) HX2(Iv, Fv, lcont(a, b)) HX2(Fv, Fv, gp(a, b)) HX2(Iv, Iv, op(a, b)) HX1(Iv, rnorm_sqr(a)) HX1(Fv, rnorm(a)) HX1(Fv, unit(a)) HX1(Fv, inv(a)) HX1(Iv, ~a) HX1(Iv, dual(a)) HX2(Iv, V, a + b) HX1(Fv, [&] { std::ostringstream o; o << a; return o.str(); }()) HX1(Iv, [&] { std::ostringstream o; o << a; return o.str(); }())
// Overloads for native numbers that a user-defined coefficient has no counterpart of.
HX1(Nt, ga::exp(a)) HX2(Sc, Nt, ga::take_grade(a, scalar(b))) HX2(Nt, Nt, ga::take_grade(a, scalar(b))) HX2(Po, Po, ga::pow(a, b))
