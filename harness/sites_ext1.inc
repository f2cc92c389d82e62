// Overloads for native, scalar and compile-time arguments, tolerances, mixed coordinates, iterators, named constants (part 1).
HX1(Sc, scalar(a)) HX1(Sc, scalar(hx::as_const(a))) HX1(Sc, scalar(Sc::make(2) + a))
HX2(Nt, Nt, vector(c<1>, a, b))
HX2(Sc, Sc, vector(c<2>, scalar(b), scalar(a)))
HX1(Nt, [&] { std::array<Cf, DIM> q; q.fill(a); return vector(q.begin(), q.end()); }())
HX1(Nt, [&] { std::vector<Cf> q(DIM, a); q[1] = Cf(2.5); return euclidean_vector(q.cbegin(), q.cend()); }())
HX1(V, dual(a, I))
HX1(Bl, dual(a, pseudoscalar()))
HX2(V, Bl, dual(a, b))
HX2(V, Nt, dp(a, b))
HX2(V, W, fast_join(a, b, 1.0e-4))
HX2(V, Bl, plunge(a, b, 1.0e-4))
HX2(Bl, Bl, fast_join(a, b))
HX2(V, Nt, op(a, b))
HX2(Nt, V, lcont(a, b))
HX2(Nt, Nt, sp(scalar(a), b))
HX2(V, Nt, cp(a, b))
HX2(V, Nt, rp(a, b))
HX2(Nt, V, rp(a, b))
HX2(Sc, V, lcont(a, b))
HX1(Mv, rnorm_sqr(a))
HX1(Db, rnorm_sqr(a))
HX1(Db, inv(a))
HX1(Db, unit(a))
HX1(V, is_zero(a))
HX2(Ve, Ve, apply_even_versor(a, b))
HX1(V, a ^ e2 ^ e3)
HX1(V, a + _1)
HX1(V, _2 * a)
HX1(V, a + e1 - e3)
HX1(V, sqrt(sp(a, a) + c<1>))
HX1(Po, pow(scalar(a), c<-1>))
HX1(Mv, dual(a))
HX2(Mv, V, a - b)
HX2(Mv, Mv, sp(a, b))
HX2(Mv, Mv, cp(a, b))
HX1(Mv, [&] { std::ostringstream o; o << a; return o.str(); }())
