// Several runtime-defined basis blades; four inputs.
HXL3(V, Db, Db, z) HXL3(V, Db, Db, y) HXL3(V, Db, Db, x + z) HXL3(Db, Db, Db, (x ^ y) ^ z) HXL3(Db, Db, Db, x + y - z) HXL3(V, Ub, Ub, y ^ z) HXL3(Ub, Ub, Ub, z) HXL3(Db, V, Db, x ^ z) HXL3(Sc, Db, Db, x * y - z) HXL3(Db, Sc, Ub, z * y + x) HXL2(Db, Db, y ^ x) HXL2(Db, Db, y + c<2> * x) HXL2(Ub, Db, y - x)
HXL4(V, W, V, W, (x ^ y) + (z ^ w)) HXL4(V, Sc, W, Sc, x * y - z * w) HXL4(Db, Ub, Db, Ub, w) HXL4(Db, Db, Db, Db, z ^ w) HXL4(V, C3, Db, W, w + y * z) HXL4(Sc, Sc, Sc, Sc, x * y - z * w) HXL4(V, W, V, W, w) HXL4(V, W, V, W, z) HXL4(V, Bl, Sc, Db, (y + x) * z + w) HXL4(Vc, E1, V, Ec, x - y + z - w)
HXL4(V, V, V, V, x + y + z + w) HXL4(V, V, V, V, w - x) HXL3(V, V, V, y) HXL3(Bl, Bl, Bl, z - x) HXL3(Hv, V, Hv, ga::gp(x, y, SPACE) + z) HXL4(Sc, V, Sc, V, x * w + z * y)
