// Homogeneous models, second part.
HX1(Nt, [&] { std::vector<Cf> q(DIM - 1, a); q[0] = Cf(2.5); return point(q.begin(), q.end()); }())
HX1(Nt, [&] { std::array<Cf, DIM - 1> q; q.fill(a); return euclidean_vector(q.cbegin(), q.cend()); }())
HX1(Pt, dual(a))
HX1(Ln, dual(a))
HX1(Ln, undual(a))
HX2(Ln, Pt, op(a, b))
HX2(Ln, Pt, rp(a, b))
HX2(Ln, Pt, lcont(b, a))
HX1(Dir, a + ep)
HX2(Dir, Dir, translate(a, b))
HX1(Dir, flat_direction(a))
HX1(Ln, unit(a))
HX1(Ln, [&] { std::ostringstream o; o << a; return o.str(); }())
HX1(Cp, point(a.begin(), a.end())) HX1(Cp, point(a.data(), a.data() + a.size())) HX1(Ct, vector(a.begin(), a.end())) HX1(Cp, euclidean_vector(a.begin(), a.end()))
HX1(V, flat_direction(a)) HX1(V, flat_moment(a)) HX1(V, flat_support_vector(a)) HX1(V, flat_unit_support_point(a))
