HXG(Db, "", [&] { auto l = ga::make_lazy_context(a, a); return ga::gp(l.template argument<0>(), l.template argument<1>(), SPACE); }())
HXG(Db, "", [&] { auto l = ga::make_lazy_context(a, a); return l.template argument<0>() ^ l.template argument<1>(); }())
HXG(Db, "", [&] { auto l = ga::make_lazy_context(a, a); return ga::lcont(l.template argument<0>(), l.template argument<1>(), SPACE); }())
HXG(Db, "", [&] { auto l = ga::make_lazy_context(a); return reverse(l.template argument<0>()); }())
HXG(Db, "", [&] { auto l = ga::make_lazy_context(a); return conjugate(l.template argument<0>()) + involute(l.template argument<0>()); }())
HXG(Db, "", [&] { auto l = ga::make_lazy_context(a); return take_grade(l.template argument<0>(), 1); }())
HXG(Db, "", [&] { auto l = ga::make_lazy_context(a); return take_grade(l.template argument<0>(), c<1>); }())
HXG(V, "", [&] { auto l = ga::make_lazy_context(a); return ga::largest_grade(l.template argument<0>() + c<1>, c<0>); }())
HXG(V, "", [&] { auto l = ga::make_lazy_context(a); return ga::take_largest_grade(l.template argument<0>() + c<1>, c<0>); }())
HXG(V, "", [&] { auto l = ga::make_lazy_context(a, a); return ga::dp(l.template argument<0>(), l.template argument<1>(), c<0>, SPACE); }())
HXG(Bl, "", [&] { auto l = ga::make_lazy_context(a); return ga::exp(l.template argument<0>(), c<0>, SPACE); }())
HXG(V, "", [&] { auto l = ga::make_lazy_context(a); return ga::inv(l.template argument<0>(), SPACE); }())
HXG(V, "", [&] { auto l = ga::make_lazy_context(a); return ga::unit(l.template argument<0>(), SPACE); }())
HXG(Sc, "", [&] { auto l = ga::make_lazy_context(a); return pow(l.template argument<0>(), l.template argument<0>()) - cbrt(l.template argument<0>()); }())
HXG(Db, "", [&] { auto l = ga::make_lazy_context(a, a); return ga::sp(l.template argument<0>(), l.template argument<1>(), SPACE); }())
HX1(Dz, (a)) HX1(Dz, a + e(c<1>)) HX2(Dz, Db, op(a, b)) HX2(Dz, V, a - b)
