// Plane-based algebras: Euclidean vectors.
HX2(Nt, Nt, ga::euclidean_vector(SPACE, a, b))
HX1(Nt, ga::euclidean_vector(SPACE, a, a))
HX2(Nt, Nt, euclidean_vector(a, b))
HX2(Nt, Nt, euclidean_vector(a, c<1>))
HX1(Ct, [&] { return euclidean_vector(a.begin(), a.begin() + (DIM - 1)); }())
HX1(Ct, [&] { return ga::euclidean_vector(SPACE, a.begin(), a.begin() + (DIM - 1)); }())
HX2(Nt, V, euclidean_vector(a, a) + b)
HX2(V, W, apply_odd_versor(a, b))
