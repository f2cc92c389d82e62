// Operations every algebra offers. LIGHT: leave out the heavier operand kinds.
#define HXPRODS(KA, KB) \
    HX2(KA, KB, gp(a, b)) HX2(KA, KB, op(a, b)) HX2(KA, KB, lcont(a, b)) HX2(KA, KB, rcont(a, b)) \
    HX2(KA, KB, dot(a, b)) HX2(KA, KB, hip(a, b)) HX2(KA, KB, sp(a, b)) HX2(KA, KB, rp(a, b)) HX2(KA, KB, cp(a, b))
HXPRODS(V, W)
HXPRODS(V, Bl)
HXPRODS(Bl, V)
#ifndef LIGHT
HXPRODS(Ve, Mv)
HXPRODS(Mv, Hv)
HX2(Mv, Mv, gp(a, b)) HX2(Mv, Mv, op(a, b)) HX2(Mv, Mv, rp(a, b))
#endif
HX2(V, W, a * b) HX2(V, Bl, a ^ b) HX2(V, Bl, a | b) HX2(V, Bl, a < b) HX2(Bl, V, a > b)
HX2(Db, V, gp(a, b)) 
#ifndef GENERAL_METRIC
HX2(Db, Db, lcont(a, b))
#endif
 HX2(Db, Bl, gp(a, b)) HX2(Ub, V, gp(a, b)) HX2(Ub, Ub, op(a, b))
HX2(V, W, a + b) HX2(V, W, a - b) HX2(Bl, V, a + b) HX2(V, Sc, a + b) HX2(V, Nt, a + b) HX2(V, Nt, a - b) HX2(Nt, V, a * b) HX2(V, Nt, a * b) HX2(V, Nt, a / b) HX2(Sc, V, a * b) HX2(Sc, Sc, a * b) HX2(Sc, Sc, a + b)
HX1(V, -a) HX1(Bl, +a) HX1(V, c<2> * a) HX1(V, a * e(c<1>)) HX1(V, e(c<2>) ^ a) HX1(Bl, e(c<1>) * a * e(c<1>)) HX1(V, pseudoscalar() * a)
HX1(V, ~a) HX1(Bl, ~a) HX1(Ve, ~a) HX1(Ve, reverse(a)) HX1(Ve, conjugate(a)) HX1(Hv, involute(a)) HX1(Hv, conjugate(a)) HX1(V, involute(a))
HX1(Sc, cos(a)) HX1(Sc, sin(a)) HX1(Sc, tan(a)) HX1(Sc, cosh(a)) HX1(Sc, sinh(a)) HX1(Sc, tanh(a)) HX1(Sc, abs(a)) HX1(Sc, cbrt(a)) HX1(Sc, exp(a)) HX1(Po, sqrt(scalar(a))) HX1(Po, log(scalar(a))) HX2(Po, Po, pow(scalar(a), scalar(b)))
HX1(Nt, scalar(a)) HX1(Nt, c<3> * scalar(a)) HX1(Nt, scalar(a) * e(c<1>) + e(c<2>))
HX2(Db, V, a + b) HX2(V, Db, a - b) HX2(Db, Db, a + b) HX2(Db, Ub, a - b) HX2(Ub, Ub, a + b) 
#ifndef GENERAL_METRIC
HX2(Db, Db, gp(a, b)) HX2(V, Db, lcont(a, b))
#endif
HX1(Db, ~a) HX1(Db, -a)
