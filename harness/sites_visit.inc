// Expressions to traverse.
HX1(V, (a)) HX1(Bl, (a)) HX1(Ve, (a)) HX1(Sc, (a)) HX1(Db, (a)) HX1(Ub, (a)) HX1(Iv, (a)) HX1(Fv, (a)) HX1(Hv, (a)) HX1(Mv, (a))
HX1(V, c<2> * e(c<1>)) HX1(V, c<0>) HX1(V, c<-3>) HX1(V, e(c<2>) + e(c<1>)) HX1(V, pseudoscalar()) HX1(V, c<5> * pseudoscalar() - c<7>)
HX1(V, a + c<3>) HX1(V, a + c<2> * pseudoscalar()) HX1(Nt, scalar(a)) HX1(Nt, scalar(a) * e(c<1>) + c<4> * e(c<2>)) HX1(Nt, a * pseudoscalar())
HX1(Db, a + e(c<1>)) HX1(Db, a + c<2>) HX1(Ub, a + c<9>) HX1(Db, Cf(0.0) * a)
HX2(Db, Db, a + b) HX2(Db, V, a + b) HX2(Ub, Ub, op(a, b)) HX2(Db, Ub, op(a, b)) HX2(Db, Mv, a + b) HX2(Ub, Ub, a + b)
HX2(V, W, a - b) HX2(V, Iv, a + b)
HX1(V, c<1> / c<2> * e(c<1>) + e(c<2>))
HXB(V, pseudoscalar()) HXB(V, c<3> * e(c<2>)) HXB(Nt, a * pseudoscalar()) HXB(Nt, scalar(a)) HXB(Db, (a)) HXB(Ub, (a)) HXB2(Db, Ub, op(a, b)) HXB2(Ub, Ub, op(a, b)) HXB(V, c<7>)
HXB(Nt, (std::uint64_t)0x5) HXB(Nt, (std::uint64_t)0x8000000000000003ull) HXB(Nt, (std::uint64_t)0) HXB(Nt, (std::uint64_t)(to_bits(a) | 1)) HXB(Nt, ~(std::uint64_t)0) HXB(Nt, (std::uint64_t)to_bits(a) << 31)
HXZ(V, 1.0, a) HXZ(V, 3.0, a) HXZ(Mv, 2.5, a) HXZ(Mv, 10.0, a) HXZ(Db, 2.0, a) HXZ(Hv, 2.5, a) HXZ(V, 0.0, a - a) HXZ(V, 1e-9, a - a + c<1>) HXZ(Mv, 1e-8, Cf(1e-10) * a)
HX1(Dz, (a)) HXB(Dz, (a)) HX2(Dz, V, a + b) HX2(Dz, Dz, a + b) HX1(Dz, a + c<2>) HXZ(Dz, 1e-8, a) HX2(Dz, Mv, b + a)
