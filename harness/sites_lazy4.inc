// Functions that make contexts of their own out of lazy arguments; compared with the direct call.
HXD1(V, unit(x)) HXD1(V, inv(x)) HXD1(V, rnorm(x)) HXD1(V, dual(x)) HXD1(V, undual(x)) HXD1(Bl, inv(x)) HXD1(Bl, unit(x)) HXD1(Bl, dual(x)) HXD1(Ve, inv(x)) HXD1(V, take_grade(x + c<1>, c<1>)) HXD1(Hv, take_grade(x, c<0>)) HXD1(V, rnorm_sqr(x)) HXD1(V, pow(sp(x, x), c<2>)) HXD1(V, unit(unit(x))) HXD1(V, c<2> * inv(x) + x) HXD1(V, inv(unit(x) ^ e(c<1>)))
HXD2(V, W, inv(x ^ y)) HXD2(V, W, dual(x ^ y)) HXD2(V, W, igp(x, y)) HXD2(V, W, project(x, y)) HXD2(V, W, reject(x, y)) HXD2(V, W, apply_odd_versor(x, y)) HXD2(V, W, apply_even_versor(gp(x, y), y)) HXD2(V, W, cp(x, y)) HXD2(V, W, take_grade(gp(x, y), c<2>)) HXD2(V, Bl, rp(x, y)) HXD2(V, W, abs(sp(x, y))) HXD2(V, W, sqrt(abs(sp(x, y)))) HXD2(V, W, dp(x, y, c<0>)) HXD2(V, W, dot(x, y) + hip(x, y)) HXD2(V, Po_, unit(x) * sqrt(y)) HXD2(V, Po_, pow(y, c<3>) * x) HXD2(V, W, unit(x) ^ unit(y)) HXD2(V, W, lcont(inv(x), y)) HXD2(Bl, Po_, ga::exp(x, c<0>, SPACE) * y) HXD2(V, W, exp(x ^ y)) HXD1(Bl, ga::exp(x, c<0>, SPACE))
HXD3(V, W, Po_, dp(x, y, z)) HXD3(V, W, Po_, unit(x + y) * z) HXD3(V, Po_, W, sqrt(y) * project(x, z)) HXD2(Bl, Po_, take_largest_grade(x + c<1>, y))
HXD1(Bl, (hx::formed(x, exp(x)), c<2> * x)) HXD2(V, W, (hx::formed(x, dp(x, y)), x ^ y)) HXD2(Bl, Po_, exp(x, y))
