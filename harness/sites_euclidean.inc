HX2(V, Bl, project(a, b)) HX2(V, W, project(a, b)) HX2(V, Bl, reject(a, b)) HX2(V, W, reject(a, b)) HX1(Nt, euclidean_vector(a, a, a * a))
