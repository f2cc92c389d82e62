// The metric given by the caller, grades of constants, storages seen from outside.
HX2(V, W, ga::fast_join(a, b, SPACE))
HX2(V, W, ga::fast_meet_and_join(a, b, SPACE))
HX2(V, W, ga::fast_plunge(a, b, SPACE))
HX2(V, W, ga::plunge(a, b, SPACE))
HX2(V, W, ga::meet_and_join(a, b, SPACE))
HX2(V, W, ga::fast_meet_and_join(a, b, Cf(0.01), SPACE))
HX1(Nt, [&] { return int(ga::grade(e1 ^ e2)) + int(ga::grade(e1 ^ e2).flag()) * 10; }())
HX1(V, take_grade(a ^ e1, ga::grade(e1 ^ e2)))
HX1(V, take_grade(a, ga::grade(e1)))
HX1(V, [&] { auto g = ga::grade(e1 + _1); return int(g.flag()); }())
HX1(V, [&] { auto g = ga::largest_grade(e1 + _1); return int(g); }())
HX1(Ub, [&] { auto x = a; auto const &y = x; int n = 0; for (auto b : y.bitsets()) n += int(b); return std::make_pair(n, x); }())
HX1(Db, [&] { auto x = a; auto const &y = x; Cf s(0.0); for (auto const &v : y.values()) s += v; int n = 0; for (auto b : y.bitsets()) n += int(b); return std::make_pair(s, n); }())
HX1(V, [&] { auto x = e1 + _2; auto y = x; x = y; return y + a; }())
HX1(V, [&] { Cf s(0.0); for (auto i = a.values().cbegin(); i != a.values().cend(); ++i) s += *i; return s; }())
HX1(Ub, ga::grade(a))
HX1(Db, [&] { return int(ga::grade(a)); }())
HX1(Db, take_grade(a, ga::grade(a)))
HX2(Nt, Nt, pow(a, scalar(b))) HX2(Nt, Nt, pow(scalar(a), b)) HX2(Nt, Nt, pow(scalar(a), scalar(b))) HX2(Nt, Nt, scalar(a) / b) HX2(Nt, Nt, scalar(a) * b)
