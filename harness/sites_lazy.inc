// Expressions of lazy arguments; the value is compared with the one computed directly on the inputs.
HXL1(V, +x) HXL1(V, -x) HXL1(V, x + x) HXL1(V, x - x) HXL1(V, c<2> * x) HXL1(V, x * c<3> + c<1>) HXL1(V, x ^ e(c<1>)) HXL1(V, ga::gp(x, x, SPACE)) HXL1(V, ~(x ^ e(c<2>)))
HXL1(Bl, ~x) HXL1(Bl, ga::gp(x, ~x, SPACE)) HXL1(Hv, ga::involute(x)) HXL1(Hv, ga::conjugate(x)) HXL1(Hv, ga::gp(x, x, SPACE)) HXL1(Sc, x * x * x) HXL1(Sc, c<1> - x) HXL1(Iv, x + x) HXL1(Iv, ga::gp(x, x, SPACE))
HXL1(Ub, x ^ e(c<1>)) HXL1(Db, c<2> * x) HXL1(Db, x + e(c<1>)) HXL1(Mv, x + c<1>) HXL1(Mv, ga::reverse(x))
HXL1(V, c<4> * e(c<1>) + c<3>)
HXL2(V, W, x + y) HXL2(V, W, x - y) HXL2(V, W, ga::gp(x, y, SPACE)) HXL2(V, W, x ^ y) HXL2(V, W, ga::gp(x, y, SPACE) - ga::gp(y, x, SPACE)) HXL2(V, W, ga::lcont(x, y, SPACE)) HXL2(V, W, ga::sp(x, y, SPACE) * x) HXL2(V, W, (x + y) ^ (x - y)) HXL2(V, W, x) HXL2(V, W, y)
HXL2(V, Bl, ga::gp(x, y, SPACE)) HXL2(V, Bl, ga::lcont(x, y, SPACE)) HXL2(V, Bl, x ^ y) HXL2(V, Bl, x + y) HXL2(Bl, V, ga::rcont(x, y, SPACE)) HXL2(Hv, V, ga::gp(x, y, SPACE))
HXL2(Sc, V, x * y) HXL2(Sc, V, y * x + x) HXL2(Sc, Sc, x * y - y) HXL2(V, Sc, x * (y + c<1>))
HXL2(Db, V, x + y) HXL2(Db, V, x ^ y) HXL2(Db, Ub, x ^ y) HXL2(Ub, Ub, x ^ y) HXL2(Db, V, y) HXL2(Db, Ub, y + x) HXL2(Iv, V, x + y) HXL2(Iv, V, x ^ y)
HXL3(V, W, Sc, (x ^ y) * z) HXL3(V, W, V, x + y - z) HXL3(V, W, V, (x ^ y) + z) HXL3(V, W, Bl, x + y + z) HXL3(V, Sc, W, y * x + y * z) HXL3(Db, V, W, (x ^ y) + z) HXL3(Sc, V, Bl, x * (y + z)) HXL3(V, W, Sc, z) HXL3(V, Sc, W, y)
