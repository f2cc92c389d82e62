// Conformal and Minkowski models, second part.
HX1(Nt, [&] { std::vector<Cf> q(DIM - 2, a); q[0] = Cf(2.5); return point(q.begin(), q.end()); }())
HX1(Nt, [&] { std::array<Cf, DIM - 2> q; q.fill(a); return euclidean_vector(q.cbegin(), q.cend()); }())
HX1(Pt, a ^ ni)
HX1(Pt, no * a)
HX1(Pt, sp(a, a))
HX1(Pt, a + ep)
HX1(Pt, dual(a))
HX1(Ro, dual(a))
HX1(Ro, unit(a))
HX1(Ro, rnorm_sqr(a))
HX1(Ro, ~a)
HX1(Pt, [&] { std::ostringstream o; o << a; return o.str(); }())
HX1(Cq, point(a.begin(), a.end())) HX1(Cq, point(a.data(), a.data() + a.size())) HX1(Ct, vector(a.begin(), a.end())) HX1(Cq, euclidean_vector(a.begin(), a.end()))
