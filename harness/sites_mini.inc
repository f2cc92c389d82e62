// A few operations in every algebra header.
HX2(V, W, gp(a, b)) HX2(V, W, op(a, b)) HX2(V, W, lcont(a, b)) HX2(V, W, sp(a, b)) HX2(V, W, dot(a, b)) HX2(V, W, a * b - b * a) HX2(V, W, a + b) HX1(V, ~a) HX1(V, a * e1) HX1(V, e1 ^ a) HX1(V, I * a) HX1(V, a + _1) HX1(V, pseudoscalar() * a) HX1(V, rnorm_sqr(a)) HX2(Db, V, op(a, b)) HX1(Db, c<2> * a)
HX1(V, [&] { std::ostringstream o; o << a; return o.str(); }()) HX1(Ub, [&] { std::ostringstream o; o << a; return o.str(); }())
#ifndef DEGENERATE
HX1(V, dual(a)) HX1(V, undual(a)) HX1(V, unit(a)) HX1(V, inv(a))
#endif
