// Native numbers and scalar expressions as operands of every function that has an overload for them (part 3).
HX2(Nt, V, ga::op(a, b, SPACE)) HX2(Sc, V, ga::op(a, b, SPACE)) HX2(Nt, Sc, ga::op(a, b, SPACE)) HX2(Nt, Nt, ga::op(a, b, SPACE)) HX2(Nt, Mv, ga::op(a, b, SPACE))
HX2(Nt, V, ga::gp(a, b, SPACE)) HX2(Sc, V, ga::gp(a, b, SPACE)) HX2(Nt, Sc, ga::gp(a, b, SPACE)) HX2(Nt, Nt, ga::gp(a, b, SPACE)) HX2(Nt, Mv, ga::gp(a, b, SPACE))
HX2(Nt, V, ga::igp(a, b, SPACE)) HX2(Sc, Nt, ga::igp(a, b, SPACE)) HX2(Sc, Sc, ga::igp(a, b, SPACE)) HX2(Mv, Nt, ga::igp(a, b, SPACE)) HX2(Nt, V, ga::rp(a, b, SPACE))
HX2(Nt, Sc, ga::rp(a, b, SPACE)) HX2(Nt, Mv, ga::rp(a, b, SPACE)) HX2(Nt, V, ga::lcont(a, b)) HX2(Sc, V, ga::lcont(a, b)) HX2(Nt, Sc, ga::lcont(a, b)) HX2(Nt, Nt, ga::lcont(a, b))
HX2(Nt, Mv, ga::lcont(a, b)) HX2(Nt, V, ga::rcont(a, b)) HX2(Sc, V, ga::rcont(a, b)) HX2(Nt, Sc, ga::rcont(a, b)) HX2(Nt, Nt, ga::rcont(a, b)) HX2(Nt, Mv, ga::rcont(a, b))
HX2(Nt, V, ga::dot(a, b)) HX2(Sc, V, ga::dot(a, b)) HX2(Nt, Sc, ga::dot(a, b)) HX2(Nt, Nt, ga::dot(a, b)) HX2(Nt, Mv, ga::dot(a, b)) HX2(Nt, V, ga::hip(a, b)) HX2(Sc, V, ga::hip(a, b))
HX2(Nt, Sc, ga::hip(a, b)) HX2(Nt, Nt, ga::hip(a, b)) HX2(Nt, Mv, ga::hip(a, b)) HX2(Nt, V, ga::sp(a, b)) HX2(Sc, V, ga::sp(a, b)) HX2(Nt, Sc, ga::sp(a, b)) HX2(Nt, Nt, ga::sp(a, b))
HX2(Nt, Mv, ga::sp(a, b)) HX2(Nt, V, ga::cp(a, b)) HX2(Sc, V, ga::cp(a, b)) HX2(Nt, Sc, ga::cp(a, b)) HX2(Nt, Nt, ga::cp(a, b)) HX2(Nt, V, ga::dp(a, b))
HX2(V, Sc, ga::dp(a, b, Cf(0.125), SPACE)) HX2(Sc, V, ga::dp(a, b, Cf(0.125))) HX2(Nt, Sc, ga::dp(a, b)) HX2(Sc, Sc, ga::dp(a, b, Cf(0.125), SPACE)) HX2(Nt, Nt, ga::dp(a, b, Cf(0.125)))
HX1(Nt, ga::inv(a)) HX1(Nt, ga::unit(a, SPACE)) HX1(Sc, ga::rnorm(a)) HX1(Sc, ga::rnorm_sqr(a, SPACE)) HX1(V, ga::rnorm_sqr(a, SPACE)) HX1(Nt, ga::exp(a, SPACE))
HX1(V, ga::exp(a, Cf(0.125), SPACE)) HX1(Nt, ga::reverse(a)) HX1(Sc, ga::grade(a, Cf(0.125))) HX1(Sc, ga::largest_grade(a, Cf(0.125))) HX1(Sc, ga::take_largest_grade(a, Cf(0.125)))
HX1(Sc, ga::is_zero(a, Cf(0.125))) HX2(Ve, Sc, ga::apply_even_versor(a, b, SPACE)) HX2(V, Sc, ga::apply_odd_versor(a, b, SPACE)) HX2(Ve, Sc, ga::apply_rotor(a, b, SPACE))
HX1(Nt, ga::take_grade(a, 0)) HX2(Nt, V, ga::apply_even_versor(a, b, SPACE)) HX2(Nt, V, ga::apply_odd_versor(a, b, SPACE)) HX2(Nt, V, ga::apply_rotor(a, b, SPACE)) HX2(Nt, V, a + b)
HX2(Nt, Sc, a + b) HX2(V, Nt, a - b) HX2(Sc, Nt, a - b) HX2(Nt, Mv, a - b) HX2(Sc, V, a * b) HX2(Mv, Nt, a * b) HX2(Sc, Nt, a / b) HX2(V, Nt, a ^ b) HX2(Sc, Nt, a ^ b) HX2(Nt, Mv, a ^ b)
HX2(Sc, V, a < b) HX2(Mv, Nt, a < b) HX2(V, Sc, a > b) HX2(Sc, Sc, a > b) HX2(Nt, V, a | b) HX2(Nt, Sc, a | b) HX2(Po, Po, ga::pow(scalar(a), b)) HX1(Po, ga::exp(scalar(a)))
HX1(Po, ga::cos(scalar(a))) HX1(Po, ga::tan(scalar(a))) HX1(Bl, take_grade(a, grade(a))) HX1(Bl, take_grade(a, largest_grade(a))) HX1(Nt, [&] { auto g = ga::grade(a); return int(g); }())
HX1(Nt, [&] { auto g = ga::largest_grade(a); return int(g); }()) HX1(Sc, [&] { auto g = ga::grade(a); return int(g.flag()) * 100 + int(g); }())
HX1(Sc, [&] { auto g = ga::grade(a, Cf(0.125)); auto h = g; return int(h.flag()) * 100 + (h == g ? 7 : 1); }())
