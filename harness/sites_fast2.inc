// The same, of a vector and a blade.
HX2(V, Bl, fast_meet_and_join(a, b)) HX2(V, Bl, fast_plunge(a, b)) HX2(V, W, fast_join(a, b)) HX2(Bl, W, fast_join(a, b))
