// Copies, moves, assignments, conversions, traversals and containers of expressions.
HX2(V, W, [&] { auto x = a; x = b; return x; }())
HX2(Mv, Mv, [&] { auto x = a; x = b; auto y = x; y = a; return std::make_pair(x, y); }())
HX1(V, [&] { auto x = a; auto y = std::move(x); x = a; return y + x; }())
HX1(V, [&] { auto x = a; auto const &y = x; x = y; return x; }())
HX1(Bl, [&] { auto x = a; auto y = a; using std::swap; swap(x, y); return std::make_pair(x, y); }())
HX2(V, V, [&] { auto x = a; auto y = b; std::swap(x, y); return std::make_pair(x, y); }())
HX1(V, [&] { full_multivector_t<Cf, DIM> m; ga::trivial_copy(a, m); return m; }())
HX1(V, [&] { full_multivector_t<Cf, DIM> m = a; return m; }())
HX1(V, [&] { full_multivector_t<Cf, DIM> m = V::make(3); return m + a; }())
HX1(Bl, [&] { full_multivector_t<Cf, DIM> m; m = a; return m; }())
HX1(V, [&] { full_vector_t<Cf, DIM> m; ga::trivial_copy(a, m); auto n = m; ga::trivial_copy(m, n); return n; }())
HX1(V, [&] { auto m = a; ga::trivial_copy(a, m); ga::checked_trivial_copy(a, m); return m; }())
HX1(Mv, [&] { full_vector_t<Cf, DIM> v; ga::checked_trivial_copy(a, v, Cf(0.01)); return v; }())
HX1(Mv, [&] { full_vector_t<Cf, DIM> v = a; return v; }())
HX1(Mv, [&] { full_vector_t<Cf, DIM> v = Mv::make(4); return v; }())
HX2(Mv, V, [&] { full_vector_t<Cf, DIM> v(V::make(2)); try { ga::checked_trivial_copy(a, v, Cf(0.01)); } catch (ga::bad_checked_copy_exception const &) {} return v + b; }())
HX1(Sc, [&] { Cf x = a; return x; }())
HX1(Nt, [&] { auto x = scalar(a); auto y = scalar(Cf(a)); return x * y; }())
HX1(V, [&] { std::vector<std::decay_t<decltype(a)>> v; for (int i = 0; i < 5; i++) v.push_back(a); v.erase(v.begin()); return v[0] + v[3]; }())
HX2(V, W, [&] { auto t = std::make_tuple(a, b); auto u = t; return std::get<0>(u) + std::get<1>(t); }())
HX1(V, [&] { Cf s(0.0); ga::for_each_component(a, [&](auto &&, auto const &v, auto, auto, bool &) { s += v; }); return s; }())
HX1(Mv, [&] { Cf s(0.0); int n = 0; ga::for_each_component(a, [&](auto &&, auto const &v, auto, auto, bool &g) { s += v; g = ++n < 3; }); return s; }())
HX1(V, [&] { try { int n = 0; ga::for_each_component(a, [&](auto &&, auto const &, auto, auto, bool &) { if (++n == 2) throw std::runtime_error("x"); }); } catch (std::runtime_error const &) {} return a; }())
HX1(Mv, [&] { std::ostringstream o; o << a; return o.str(); }())
HX1(V, [&] { std::ostringstream o; o << a + V::make(1); return o.str(); }())
HX2(V, W, [&] { auto l = ga::make_lazy_context(a, b); return l.eval(ga::gp(l.template argument<0>(), l.template argument<1>(), SPACE)); }())
HX2(V, W, [&] { auto l = ga::make_lazy_context(a, W::make(2), b); auto m = l; return m.eval(m.template argument<0>() + m.template argument<1>() * m.template argument<2>()); }())
HX1(V, [&] { auto mk = [&] { return ga::make_lazy_context(a, V::make(1)); }; auto l = mk(); auto x = l.eval(l.template argument<1>() - l.template argument<0>()); auto y = l.eval(l.template argument<0>()); return std::make_pair(x, y); }())
HX2(V, Nt, [&] { auto l = ga::make_lazy_context(a, scalar(b)); auto m = std::move(l); return m.eval(m.template argument<0>() * m.template argument<1>()); }())
HX1(V, [&] { auto x = a; for (auto &v : x.values()) v *= Cf(2.0); return x; }())
HX1(V, [&] { auto x = a; for (auto &v : x.values()) v = std::move(Cf(1.5) + v); return x - a; }())
HX2(V, W, ga::scalar(ga::sp(a, b, SPACE)) * a)
HX2(V, W, (a + b) - (a + b))
HX2(V, W, ga::gp(ga::gp(a, b, SPACE), ga::gp(b, a, SPACE), SPACE))
HX2(V, W, -(a - b) + ~(a ^ b))
HX1(V, [&] { return std::move(V::make(1) + a); }())
HX1(V, V::make(1) + a) HX1(V, a - V::make(1)) HX1(V, -V::make(1)) HX1(V, +V::make(2)) HX1(V, ~(V::make(1) ^ a)) HX1(V, ga::involute(V::make(2)))
HX1(Nt, scalar(Cf(a)) + scalar(Cf(a))) HX1(Nt, Cf(a) * V::make(1)) HX1(Nt, V::make(1) * Cf(a)) HX1(Nt, V::make(1) / Cf(a))
HX1(Db, [&] { auto d = Cf(2.0) * e(2); ga::trivial_copy(a, d); auto c = d; d = Cf(1.0) * e(1); return std::make_pair(d, c); }())
HX1(Ub, [&] { auto d = Cf(2.0) * e(2); ga::trivial_copy(a, d); return d; }())
HX2(Db, V, a + b) HX2(V, Db, a - b) HX2(Db, Db, a + b) HX2(Db, Ub, a - b)
HX1(Ct, vector(a.begin(), a.end())) HX1(Ct, vector(a.cbegin(), a.cend())) HX1(Ct, vector(a.data(), a.data() + DIM)) HX1(Ct, vector(a.rbegin(), a.rend())) HX2(Ct, V, b + vector(a.begin(), a.end()))
