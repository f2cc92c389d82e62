// Copies: target, source operand, expression copied.
HXU(TM, V, (a)) HXU(TM, Bl, (a)) HXU(TM, Hv, (a)) HXU(TM, Sc, (a)) HXU(TM, Mv, (a))
HXU(TV, V, (a)) HXU(TV, W, Cf(2.0) * a) HXP(TV, Mv, (a)) HXP(TV, Hv, (a)) HXP(TV, Bl, (a)) HXP(TV, Sc, (a))
HXP(TS, Mv, (a)) HXP(TS, V, (a)) HXP(TS, Hv, (a)) HXU(TS, Sc, (a))
HXP(T2, Mv, (a)) HXP(T2, Bl, (a)) HXP(T2, V, (a)) HXP(T2, Hv, (a)) HXU(T02, Bl, (a)) HXP(T02, Mv, (a)) HXU(T02, V, (a)) HXU(T02, Hv, (a)) HXP(T1N, Hv, (a)) HXP(T1N, Mv, (a)) HXU(T1N, V, (a))
HXP(TP, Mv, (a)) HXP(TP, V, (a)) HXP(TE1, V, (a)) HXP(TE1, Mv, (a)) HXU(TV, Nt, scalar(a) * e(c<1>)) HXU(TV, Nt, scalar(a) * e(c<2>)) HXU(TM, Nt, a * pseudoscalar())
HXU(TM, V, a + c<3>) HXU(TM, V, a + c<2> * pseudoscalar()) HXU(TV, V, c<2> * e(c<1>)) HXU(TM, V, e(c<1>) + c<4> * e(c<2>)) HXU(TM, V, c<5>) HXU(TV, V, c<0>) HXU(TM, V, c<0>)
HXU(TD, Db, (a)) HXU(TDO, Db, (a)) HXU(TD, Dbo, (a)) HXU(TD, Ub, (a)) 
HXU(TVO, Iv, (a)) HXU(TMO, V, (a)) HXP(TVO, Mv, (a)) HXU(TM, Iv, (a)) HXP(TV, Iv, (a)) HXU(TM, Fv, (a))
HXP(TSD, V, (a)) HXU(TSD, Sc, (a)) HXU(TSD, Db, (a)) HXP(TSD, V, a + Db::make(3)) HXU(TSD, Sc, a + Db::make(3)) HXP(TSD, Mv, (a)) HXU(TVD, V, (a)) HXU(TVD, Db, (a)) HXU(TVD, V, a + Db::make(3)) 
HXP(TVD, Mv, (a)) HXU(TMD, V, (a)) HXU(TMD, Db, (a)) HXU(TMD, V, a + Db::make(3)) HXU(TMD, Sc, (a)) HXU(TMD, Mv, (a)) HXP(TVD, Db, a + TDB::make(2)) HXP(TSD, Db, a + TDB::make(2)) HXU(TVD, V, c<0>) 
HXU(TSD, V, c<3>) HXU(TSD, V, e(2)) HXU(TVD, V, e(2) + c<2> * e(c<1>)) HXU(TDD, Db, a + TDB::make(2)) HXU(TDD, Db, (a)) HXU(TDD, V, TDB::make(2)) HXP(TV, Db, (a)) HXP(TS, Db, (a)) HXP(TM, Db, (a)) 
HXP(T2, Db, (a)) HXP(TS, V, a + Db::make(3)) HXP(TV, V, a + Db::make(3)) HXP(TM, V, a + Db::make(3)) HXP(TD, V, (a)) HXP(TD, Sc, (a)) HXP(TD, Mv, (a)) HXP(TDB, Db, (a)) HXP(TD, V, a + Db::make(3)) 
HXU(TD, V, c<0>)

HXU(TM, Nt, (a)) HXU(TS, Nt, (a)) HXP(TV, Nt, (a)) HXU(TSD, Nt, (a)) HXP(T2, Nt, (a)) HXP(TD, Nt, (a)) HXU(TMO, Nt, (a)) HXU(TM, V, 5L) HXP(TVO, Nt, (a))
