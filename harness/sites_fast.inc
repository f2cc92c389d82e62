// Operations of four dimensions whose blades have more than one factorisation.
HX2(Bl, Bl, fast_join(a, b)) HX2(Bl, Bl, fast_meet_and_join(a, b)) HX2(Bl, Bl, project(a, b)) HX2(Bl, V, reject(a, b)) HX2(Bl, Bl, hip(a, b)) HX2(Ve, V, apply_even_versor(a, b)) HX2(V, Bl, igp(a, b)) HX1(Bl, grade(a)) HX2(V, Bl, apply_odd_versor(a, b)) HX1(Bl, inv(a)) HX2(Bl, Bl, cp(a, b))
