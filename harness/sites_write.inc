// Expressions to write. (a): the operand itself, so that threads can write one shared object.
HX1(V, (a)) HX1(Bl, (a)) HX1(Ve, (a)) HX1(Sc, (a)) HX1(Db, (a)) HX1(Ub, (a)) HX1(Iv, (a)) HX1(Fv, (a)) HX1(Hv, (a))
HX1(Mv, (a))
HX1(V, c<2> * e(c<1>)) HX1(V, c<0>) HX1(V, c<-3>) HX1(V, e(c<2>) + e(c<1>)) HX1(V, pseudoscalar()) HX1(V, c<5> * pseudoscalar() - c<7>)
HX1(V, a + c<3>) HX1(V, a + c<2> * pseudoscalar()) HX1(Nt, scalar(a)) HX1(Nt, scalar(a) * e(c<1>) + c<4> * e(c<2>)) HX1(Nt, a * pseudoscalar())
HX1(Db, a + e(c<1>)) HX1(Db, a + c<2>) HX1(Ub, a + c<9>) HX1(Db, Cf(0.0) * a)
HX2(Db, Db, a + b) HX2(Db, V, a + b) HX2(Ub, Ub, op(a, b)) HX2(Db, Ub, op(a, b)) HX2(Db, Mv, a + b)
HX2(V, W, a - b) HX2(V, Iv, a + b)
HXG(V, "pow(<2>, pow(<2>, <-1>)) * <1>", sqrt(c<2>))
HXG(V, "exp(<1>) * <1>", exp(c<1>))
#ifdef GOLD3
#define HX_G3(x) x
#else
#define HX_G3(x) ""
#endif
HXG(V, HX_G3("{Tag: 1, ValueIndex: 0} * <e1> + {Tag: 1, ValueIndex: 1} * <e2> + {Tag: 1, ValueIndex: 2} * <e3>"), [&] { return ga::make_lazy_context(a).template argument<0>(); }())
HXG(V, "", [&] { auto l = ga::make_lazy_context(a, a); return ga::gp(l.template argument<0>(), l.template argument<1>(), SPACE); }())
HXG(Db, "{Tag: 1, ValueIndex: 0} * {Tag: 1, BitsetIndex: 0}", [&] { auto l = ga::make_lazy_context(a); return l.template argument<0>(); }())
HXG(Sc, "abs(cos({Tag: 1, ValueIndex: 0}) + exp({Tag: 1, ValueIndex: 0}) * tan({Tag: 1, ValueIndex: 0})) * <1>", [&] { auto l = ga::make_lazy_context(a); return abs(cos(l.template argument<0>()) + exp(l.template argument<0>()) * tan(l.template argument<0>())); }())
HXG(Sc, "(pow(log({Tag: 1, ValueIndex: 0}), pow(<2>, <-1>)) + <-2> * sinh(cosh(tanh(sin({Tag: 1, ValueIndex: 0}))))) * <1>", [&] { auto l = ga::make_lazy_context(a); return sqrt(log(l.template argument<0>())) - c<2> * sinh(cosh(tanh(sin(l.template argument<0>())))); }())
