// Overloads for native, scalar and compile-time arguments, tolerances, mixed coordinates, iterators, named constants (part 2).
HX1(Sc, scalar(scalar(a)))
HX2(Nt, Nt, vector(a, b, c<3>))
HX2(Nt, Nt, euclidean_vector(a, c<0>, b))
HX1(Sc, exp(a))
HX2(V, W, dp(a, b, 1.0e-3))
HX2(Nt, V, dp(a, b))
HX2(Sc, Nt, dp(a, b))
HX2(V, Bl, meet_and_join(a, b, 1.0e-4))
HX2(Bl, Bl, fast_meet_and_join(a, b))
HX2(Nt, V, gp(a, b))
HX2(V, Nt, gp(a, b))
HX2(Nt, V, op(a, b))
HX2(V, Nt, rcont(a, b))
HX2(Nt, V, hip(a, b))
HX2(V, Nt, sp(a, b))
HX2(Nt, Nt, rp(a, b))
HX2(Sc, Sc, dot(a, b))
HX2(Sc, Sc, hip(a, b))
HX2(Sc, Sc, igp(a, b))
HX2(Sc, Nt, a / b)
HX1(Nt, inv(scalar(a)))
HX1(Sc, grade(a))
HX2(Mv, Nt, [&] { int g = (int)largest_grade(a); return take_grade(a, g < 0 ? 0 : g); }())
HX1(Db, dual(a))
HX1(Db, grade(a))
HX1(Ve, is_unit(a, 0.1))
HX2(V, Sc, apply_odd_versor(a, b))
HX2(Ve, Mv, apply_rotor(a, b))
HX1(V, e1 * a)
HX1(Bl, rcont(a, e1 ^ e2))
HX1(V, pow(sp(a, a) + c<1>, 1.5))
HX1(Po, pow(scalar(a), c<3>) / scalar(a))
HX1(Mv, ~a)
HX1(Mv, undual(a))
HX2(Mv, Mv, lcont(a, b))
HX2(Mv, Mv, hip(a, b))
