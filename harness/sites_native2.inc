// Native numbers and scalar expressions as operands of every function that has an overload for them (part 2).
HX2(V, Nt, ga::op(a, b)) HX2(V, Sc, ga::op(a, b)) HX2(Sc, Nt, ga::op(a, b)) HX2(Sc, Sc, ga::op(a, b)) HX2(Mv, Nt, ga::op(a, b)) HX2(V, Nt, ga::gp(a, b)) HX2(V, Sc, ga::gp(a, b))
HX2(Sc, Nt, ga::gp(a, b)) HX2(Sc, Sc, ga::gp(a, b)) HX2(Mv, Nt, ga::gp(a, b)) HX2(V, Nt, ga::igp(a, b)) HX2(Sc, V, ga::igp(a, b, SPACE)) HX2(Nt, Sc, ga::igp(a, b)) HX2(Nt, Nt, ga::igp(a, b))
HX2(V, Nt, ga::rp(a, b, SPACE)) HX2(Sc, Nt, ga::rp(a, b, SPACE)) HX2(Mv, Nt, ga::rp(a, b, SPACE)) HX2(Nt, V, ga::lcont(a, b, SPACE)) HX2(Sc, V, ga::lcont(a, b, SPACE))
HX2(Nt, Sc, ga::lcont(a, b, SPACE)) HX2(Nt, Nt, ga::lcont(a, b, SPACE)) HX2(Nt, Mv, ga::lcont(a, b, SPACE)) HX2(Nt, V, ga::rcont(a, b, SPACE)) HX2(Sc, V, ga::rcont(a, b, SPACE))
HX2(Nt, Sc, ga::rcont(a, b, SPACE)) HX2(Nt, Nt, ga::rcont(a, b, SPACE)) HX2(Nt, Mv, ga::rcont(a, b, SPACE)) HX2(Nt, V, ga::dot(a, b, SPACE)) HX2(Sc, V, ga::dot(a, b, SPACE))
HX2(Nt, Sc, ga::dot(a, b, SPACE)) HX2(Nt, Nt, ga::dot(a, b, SPACE)) HX2(Nt, Mv, ga::dot(a, b, SPACE)) HX2(Nt, V, ga::hip(a, b, SPACE)) HX2(Sc, V, ga::hip(a, b, SPACE))
HX2(Nt, Sc, ga::hip(a, b, SPACE)) HX2(Nt, Nt, ga::hip(a, b, SPACE)) HX2(Nt, Mv, ga::hip(a, b, SPACE)) HX2(Nt, V, ga::sp(a, b, SPACE)) HX2(Sc, V, ga::sp(a, b, SPACE))
HX2(Nt, Sc, ga::sp(a, b, SPACE)) HX2(Nt, Nt, ga::sp(a, b, SPACE)) HX2(Nt, Mv, ga::sp(a, b, SPACE)) HX2(Nt, V, ga::cp(a, b, SPACE)) HX2(Sc, V, ga::cp(a, b, SPACE))
HX2(Nt, Sc, ga::cp(a, b, SPACE)) HX2(Nt, Nt, ga::cp(a, b, SPACE)) HX2(V, Nt, ga::dp(a, b, Cf(0.125))) HX2(V, Sc, ga::dp(a, b)) HX2(Sc, V, ga::dp(a, b, Cf(0.125), SPACE))
HX2(Sc, Nt, ga::dp(a, b, Cf(0.125))) HX2(Sc, Sc, ga::dp(a, b)) HX2(Nt, Nt, ga::dp(a, b, Cf(0.125), SPACE)) HX1(Nt, ga::inv(a, SPACE)) HX1(Sc, ga::unit(a)) HX1(Sc, ga::rnorm(a, SPACE))
HX1(V, ga::rnorm(a, SPACE)) HX1(Nt, ga::rnorm_sqr(a)) HX1(Sc, ga::exp(a, Cf(0.125), SPACE)) HX1(V, ga::exp(a, SPACE)) HX1(Sc, ga::reverse(a)) HX1(Sc, ga::grade(a))
HX1(Sc, ga::largest_grade(a)) HX1(Sc, ga::take_largest_grade(a)) HX1(Sc, ga::is_zero(a)) HX1(Sc, ga::take_grade(a, ga::c<0>)) HX2(Sc, Sc, ga::apply_even_versor(a, b, SPACE))
HX2(Sc, Sc, ga::apply_odd_versor(a, b, SPACE)) HX2(Sc, Sc, ga::apply_rotor(a, b, SPACE)) HX2(Ve, Nt, ga::apply_even_versor(a, b, SPACE)) HX2(V, Nt, ga::apply_odd_versor(a, b, SPACE))
HX2(Ve, Nt, ga::apply_rotor(a, b, SPACE)) HX2(V, Nt, a + b) HX2(Sc, Nt, a + b) HX2(Nt, Mv, a + b) HX2(Sc, V, a - b) HX2(Mv, Nt, a - b) HX2(V, Sc, a * b) HX2(Sc, Sc, a * b) HX2(V, Sc, a / b)
HX2(Mv, Nt, a / b) HX2(Sc, V, a ^ b) HX2(Mv, Nt, a ^ b) HX2(V, Sc, a < b) HX2(Sc, Sc, a < b) HX2(Nt, V, a > b) HX2(Nt, Sc, a > b) HX2(V, Nt, a | b) HX2(Sc, Nt, a | b) HX2(Nt, Mv, a | b)
HX1(Po, ga::cbrt(scalar(a))) HX1(Po, ga::abs(scalar(a))) HX1(Po, ga::sinh(scalar(a))) HX1(Nt, take_grade(a, grade(a))) HX1(Nt, take_grade(a, largest_grade(a)))
HX1(Sc, [&] { auto g = ga::grade(a); return int(g); }()) HX1(Sc, [&] { auto g = ga::largest_grade(a); return int(g); }())
HX1(V, [&] { auto g = ga::grade(a); return int(g.flag()) * 100 + int(g); }()) HX1(V, [&] { auto g = ga::grade(a, Cf(0.125)); auto h = g; return int(h.flag()) * 100 + (h == g ? 7 : 1); }())
