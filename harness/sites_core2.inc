// Operations every algebra offers, second part: norms, inverses, duals, grades, versors, meet, text, contexts, copies.
HX1(V, rnorm_sqr(a)) HX1(V, rnorm(a)) HX1(Bl, rnorm_sqr(a)) HX1(Bl, rnorm(a)) HX1(V, inv(a)) HX1(Ve, inv(a)) HX1(V, unit(a)) HX1(Bl, unit(a)) HX2(V, W, igp(a, b)) HX2(V, Ve, igp(a, b)) HX2(V, Nt, a / b) HX2(Nt, V, igp(a, b))
#ifndef DEGENERATE
HX1(V, dual(a)) HX1(Bl, dual(a)) HX1(V, undual(a)) HX1(Bl, undual(a))
#endif
HX1(Hv, largest_grade(a)) HX1(V, grade(a)) 
#if DIM <= 3
HX1(Bl, grade(a)) HX1(Hv, grade(a))
#endif
 HX1(Hv, take_grade(a, c<1>)) HX1(Ve, take_grade(a, c<2>)) HX1(Ve, take_grade(a, c<0>)) HX1(Hv, take_largest_grade(a))
HX1(V, is_zero(a, 1.0e-8)) HX1(V, is_zero(a)) HX1(V, is_zero(a, 0.5)) HX1(V, is_null(a, 1.0e-8)) HX1(V, is_unit(a, 1.0e-8))

#if DIM <= 3
HX2(Ve, V, apply_even_versor(a, b)) HX2(V, W, apply_odd_versor(a, b)) HX2(Ve, Bl, apply_even_versor(a, b)) HX2(Ve, V, apply_rotor(a, b))
#endif


#if DIM <= 3
HX2(V, W, dp(a, b)) HX2(Bl, V, dp(a, b))
#endif

HX1(Bl, exp(a))

#if DIM <= 3
HX2(V, Bl, plunge(a, b)) HX2(V, W, fast_plunge(a, b)) HX2(V, Bl, meet_and_join(a, b)) HX2(V, W, fast_join(a, b)) HX2(V, Bl, fast_meet_and_join(a, b)) HX2(Bl, Bl, meet_and_join(a, b))
#endif

#ifndef NO_TEXT
HX1(V, [&] { std::ostringstream o; o << a; return o.str(); }()) HX1(Hv, [&] { std::ostringstream o; o << a; return o.str(); }()) HX1(Db, [&] { std::ostringstream o; o << a; return o.str(); }())
#endif
HX2(V, W, [&] { auto ctx = make_lazy_context(a, b); return ctx.eval(gp(ctx.template argument<0>(), ctx.template argument<1>())); }())
HX2(V, Bl, [&] { auto ctx = make_lazy_context(a, b); return ctx.eval(op(ctx.template argument<0>(), ctx.template argument<1>()) + lcont(ctx.template argument<0>(), ctx.template argument<1>())); }())
HX1(V, [&] { full_multivector_t<Cf, DIM> m; trivial_copy(a, m); return m; }())
HX1(Ve, [&] { full_multivector_t<Cf, DIM> m; checked_trivial_copy(a, m, 1.0e-8); return m; }())
HX1(Hv, [&] { auto r = V::make(0); checked_trivial_copy(a, r, 1.0e-8); return r; }())
HX1(Hv, [&] { std::string s; for_each_component(a, [&](auto const &bs, auto const &, auto const &, auto const &, bool &) { s += char('a' + (int)bs); }); return s; }())
HX1(Db, [&] { std::string s; for_each_basis_vector(a, [&](auto const &i, bool &) { s += char('a' + (int)i); }); return s; }())
