// Inputs that store nothing or only a part, deeper expressions, functions.
HXL1(Vc, x + x) HXL1(Vc, ga::gp(x, x, SPACE)) HXL1(Ec, x ^ e(c<1>)) HXL1(Ec, c<2> * x) HXL1(Ec, ~x + c<1>)
HXL2(C3, V, x * y) HXL2(V, C3, x + y) HXL2(E1, V, x ^ y) HXL2(V, E1, ga::gp(x, y, SPACE)) HXL2(K2, V, x + y) HXL2(V, K2, x ^ y) HXL2(C3, E1, x * y) HXL2(Vc, Ec, x + y) HXL2(Vc, W, ga::gp(x, y, SPACE)) HXL2(K2, Vc, ga::gp(x, y, SPACE))
HXL3(V, C3, W, x + y * z) HXL3(E1, V, Sc, (x ^ y) * z) HXL3(C3, E1, V, x * y + z) HXL3(V, E1, W, (x ^ y) + z) HXL3(Sc, K2, V, x * y + z) HXL3(C3, V, Bl, ga::gp(y, z, SPACE) + x)
HXL2(V, W, ga::gp(ga::gp(x, y, SPACE), x, SPACE)) HXL2(V, W, (x ^ y) + ga::gp(y, x, SPACE) - c<2> * x) HXL2(V, W, ga::sp(x, x, SPACE) - ga::sp(y, y, SPACE)) HXL2(V, W, ga::gp(x + y, x - y, SPACE)) HXL2(V, W, ~(x ^ y) ^ x)
HXL3(V, W, V, (x ^ y) ^ z) HXL3(V, W, V, ga::gp(ga::gp(x, y, SPACE), z, SPACE)) HXL3(V, W, V, ga::lcont(x, y ^ z, SPACE)) HXL3(Sc, Sc, Sc, x * y + y * z + z * x) HXL3(Sc, Sc, V, (x - y) * z)
HXA1(V, ga::rnorm_sqr(x, SPACE)) HXA1(Po_, x / c<2>) HXA2(V, Po_, x / y) HXA2(Po_, V, ga::sqrt(x) * y) HXA1(Po_, ga::exp(x)) HXA1(Po_, ga::cos(x) + ga::sin(x)) HXA2(Po_, Po_, ga::pow(x, c<2>) + ga::sqrt(y))
