// Native numbers and scalar expressions as operands of every function that has an overload for them (part 1).
HX2(V, Nt, ga::op(a, b, SPACE)) HX2(V, Sc, ga::op(a, b, SPACE)) HX2(Sc, Nt, ga::op(a, b, SPACE)) HX2(Sc, Sc, ga::op(a, b, SPACE)) HX2(Mv, Nt, ga::op(a, b, SPACE))
HX2(V, Nt, ga::gp(a, b, SPACE)) HX2(V, Sc, ga::gp(a, b, SPACE)) HX2(Sc, Nt, ga::gp(a, b, SPACE)) HX2(Sc, Sc, ga::gp(a, b, SPACE)) HX2(Mv, Nt, ga::gp(a, b, SPACE))
HX2(V, Nt, ga::igp(a, b, SPACE)) HX2(V, Sc, ga::igp(a, b)) HX2(Nt, Sc, ga::igp(a, b, SPACE)) HX2(Nt, Nt, ga::igp(a, b, SPACE)) HX2(Nt, Mv, ga::igp(a, b, SPACE))
HX2(Sc, V, ga::rp(a, b, SPACE)) HX2(Nt, Nt, ga::rp(a, b, SPACE)) HX2(V, Nt, ga::lcont(a, b)) HX2(V, Sc, ga::lcont(a, b)) HX2(Sc, Nt, ga::lcont(a, b)) HX2(Sc, Sc, ga::lcont(a, b))
HX2(Mv, Nt, ga::lcont(a, b)) HX2(V, Nt, ga::rcont(a, b)) HX2(V, Sc, ga::rcont(a, b)) HX2(Sc, Nt, ga::rcont(a, b)) HX2(Sc, Sc, ga::rcont(a, b)) HX2(Mv, Nt, ga::rcont(a, b))
HX2(V, Nt, ga::dot(a, b)) HX2(V, Sc, ga::dot(a, b)) HX2(Sc, Nt, ga::dot(a, b)) HX2(Sc, Sc, ga::dot(a, b)) HX2(Mv, Nt, ga::dot(a, b)) HX2(V, Nt, ga::hip(a, b)) HX2(V, Sc, ga::hip(a, b))
HX2(Sc, Nt, ga::hip(a, b)) HX2(Sc, Sc, ga::hip(a, b)) HX2(Mv, Nt, ga::hip(a, b)) HX2(V, Nt, ga::sp(a, b)) HX2(V, Sc, ga::sp(a, b)) HX2(Sc, Nt, ga::sp(a, b)) HX2(Sc, Sc, ga::sp(a, b))
HX2(Mv, Nt, ga::sp(a, b)) HX2(V, Nt, ga::cp(a, b)) HX2(V, Sc, ga::cp(a, b)) HX2(Sc, Nt, ga::cp(a, b)) HX2(Sc, Sc, ga::cp(a, b)) HX2(V, Nt, ga::dp(a, b, Cf(0.125), SPACE))
HX2(Nt, V, ga::dp(a, b, Cf(0.125))) HX2(Sc, V, ga::dp(a, b)) HX2(Sc, Nt, ga::dp(a, b, Cf(0.125), SPACE)) HX2(Nt, Sc, ga::dp(a, b, Cf(0.125))) HX2(Nt, Nt, ga::dp(a, b)) HX1(Sc, ga::inv(a))
HX1(Sc, ga::unit(a, SPACE)) HX1(V, ga::unit(a, SPACE)) HX1(Nt, ga::rnorm(a)) HX1(Nt, ga::rnorm_sqr(a, SPACE)) HX1(Sc, ga::exp(a)) HX1(Nt, ga::exp(a, Cf(0.125))) HX1(Nt, ga::conjugate(a))
HX1(Nt, ga::involute(a)) HX1(Nt, ga::grade(a, Cf(0.125))) HX1(Nt, ga::largest_grade(a, Cf(0.125))) HX1(Nt, ga::take_largest_grade(a, Cf(0.125))) HX1(Sc, ga::take_grade(a, 1))
HX2(Sc, Nt, ga::apply_even_versor(a, b, SPACE)) HX2(Sc, Nt, ga::apply_odd_versor(a, b, SPACE)) HX2(Sc, Nt, ga::apply_rotor(a, b, SPACE)) HX1(Nt, ga::take_grade(a, ga::c<0>))
HX2(Nt, Sc, ga::apply_even_versor(a, b, SPACE)) HX2(Nt, Sc, ga::apply_odd_versor(a, b, SPACE)) HX2(Nt, Sc, ga::apply_rotor(a, b, SPACE)) HX2(Sc, V, a + b) HX2(Mv, Nt, a + b)
HX2(V, Sc, a - b) HX2(Sc, Sc, a - b) HX2(Nt, V, a * b) HX2(Nt, Sc, a * b) HX2(V, Nt, a / b) HX2(Sc, Sc, a / b) HX2(V, Sc, a ^ b) HX2(Sc, Sc, a ^ b) HX2(Nt, V, a < b) HX2(Nt, Sc, a < b)
HX2(V, Nt, a > b) HX2(Sc, Nt, a > b) HX2(Nt, Mv, a > b) HX2(Sc, V, a | b) HX2(Mv, Nt, a | b) HX2(Po, Po, ga::pow(scalar(a), scalar(b))) HX1(Po, ga::sqrt(scalar(a)))
HX1(Po, ga::sin(scalar(a))) HX1(Sc, take_grade(a, grade(a))) HX1(Sc, take_grade(a, largest_grade(a))) HX1(V, [&] { auto g = ga::grade(a); return int(g); }())
HX1(V, [&] { auto g = ga::largest_grade(a); return int(g); }()) HX1(Mv, [&] { auto g = ga::largest_grade(a); return int(g); }())
HX1(Bl, [&] { auto g = ga::grade(a); return int(g.flag()) * 100 + int(g); }()) HX1(Bl, [&] { auto g = ga::grade(a, Cf(0.125)); auto h = g; return int(h.flag()) * 100 + (h == g ? 7 : 1); }())
