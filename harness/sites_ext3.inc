// Overloads for native, scalar and compile-time arguments, tolerances, mixed coordinates, iterators, named constants (part 3).
HX2(Nt, Nt, vector(a, c<2>, b))
HX2(Sc, Nt, vector(a, b, a))
HX2(Nt, Sc, vector(a, scalar(a), b))
HX2(Sc, Sc, vector(a, b, a + b))
HX2(Sc, Nt, euclidean_vector(c<1>, a, b))
HX1(V, undual(a, I))
HX1(Nt, dual(a))
HX1(Sc, undual(a))
HX1(Nt, undual(a))
HX1(Ve, dual(a))
HX1(Bl, exp(a, 1.0e-4))
HX1(Bl, exp(a, Cf(0.25)))
HX2(V, W, fast_meet_and_join(a, b, 1.0e-4))
HX2(V, Bl, fast_plunge(a, b, 1.0e-4))
HX2(Bl, Bl, plunge(a, b))
HX2(V, Nt, dot(a, b))
HX2(Nt, V, cp(a, b))
HX2(V, Sc, gp(a, b))
HX2(Sc, V, op(a, b))
HX2(V, Nt, igp(a, b))
HX1(Sc, rnorm(a))
HX1(Hv, rnorm_sqr(a))
HX1(Mv, largest_grade(a))
HX1(Mv, largest_grade(a, 0.5))
HX1(Mv, take_grade(a, c<2>))
HX1(Ub, dual(a))
HX1(Mv, is_zero(a, 0.5))
HX1(Bl, is_null(a, 0.1))
HX2(Ve, Nt, apply_even_versor(a, b))
HX2(Sc, Sc, a < b)
HX1(V, I * a)
HX1(V, pow(sp(a, a), c<2>))
HX1(Po, sqrt(c<2> * scalar(a)))
HX1(Po, exp(log(scalar(a))))
HX2(Mv, Mv, a + b)
HX2(Mv, Mv, dot(a, b))
