HX1(Nt, euclidean_vector(COORDS)) HX1(Nt, point(COORDS)) HX1(Pt, +a) HX2(Pt, Qt, op(a, b))
HX1(Pt, flat_direction(a)) HX1(Ln, flat_direction(a)) HX1(Pt, flat_moment(a)) HX1(Ln, flat_moment(a)) HX1(Pt, flat_support_vector(a)) HX1(Ln, flat_support_vector(a)) HX1(Pt, flat_unit_support_point(a)) HX1(Ln, flat_unit_support_point(a))
HX2(Dir, Pt, translate(a, b)) HX2(Dir, Ln, translate(a, b)) 
#if DIM <= 3
HX2(Ln, Pt, meet_and_join(a, b))
#endif

