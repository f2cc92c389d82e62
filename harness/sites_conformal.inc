// Conformal and Minkowski models (D = DIM - 2).
HX2(Pt, Qt, op(a, b)) HX2(Pt, Qt, sp(a, b)) HX1(Nt, euclidean_vector(COORDS)) HX1(Nt, point(COORDS)) HX1(Pt, +a)
HX1(Ro, primal_round_direction(a))
#ifndef NO_ROUND_LOCATION
HX1(Ro, primal_round_location(a)) HX1(Du, dual_round_location(a))
#endif
 HX1(Ro, primal_round_size_sqr(a))
HX1(Du, dual_round_size_sqr(a))
HX1(Fl, primal_flat_direction(a)) HX1(Fl, primal_flat_location(a))
HX1(Df, dual_flat_location(a))
#ifndef SMALL
HX1(Ta, primal_tangent_direction(a)) HX1(Ta, primal_tangent_location(a))
HX1(Dt, dual_tangent_location(a))
HX2(Ro, Pt, gp(a, b)) HX2(Fl, Pt, rp(a, b)) HX2(Pt, Fl, lcont(a, b)) HX2(Fl, Pt, apply_odd_versor(b, a))
#endif
// plain vectors: other values than those of geometric objects
HX1(V, primal_flat_location(a)) HX1(V, dual_flat_location(a)) HX1(V, primal_flat_direction(a)) HX1(V, primal_tangent_location(a)) HX1(V, dual_tangent_location(a)) HX1(V, primal_round_size_sqr(a)) HX1(V, dual_round_size_sqr(a))
#ifndef NO_ROUND_LOCATION
HX1(V, primal_round_location(a)) HX1(V, dual_round_location(a)) HX1(V, primal_round_direction(a)) HX1(V, primal_tangent_direction(a))
#endif
