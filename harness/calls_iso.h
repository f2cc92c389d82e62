// Isolation calls (C01): bit-exact outcome, operands unchanged.
namespace hx {
template<class K, class F> uint64_t with(Args const &k, int i, F f) {
    int idx = k.a[i];
    if (k.mode >> i & 1) {
        auto &x = *shared_slot<K>(idx);
        uint64_t before = observe(x);
        uint64_t r = f(x);
        if (observe(x) != before) operand_changed(i, "a shared operand");
        return r;
    }
    auto x = K::make(idx);
    uint64_t before = observe(x);
    uint64_t r = f(x);
    if (observe(x) != before) operand_changed(i, "a local operand");
    return r;
}
template<class F> uint64_t fin(Args const &, F f) { return guarded([&] { auto r = call_apart(f); sim::scribble_stack(0x35, 2); return observe(r); }); }
}
#define HX_SITE_TABLE(ns) hx::Site const ns[]
#define HX1(KA, ...) { #__VA_ARGS__ " <" #KA ">", 1, \
    [](hx::Args const &k) -> hx::uint64_t { return hx::with<KA>(k, 0, [&](auto &a) { (void)a; return hx::fin(k, [&] { return __VA_ARGS__; }); }); }, \
    [](hx::Args const &k) { hx::prepare_one<KA>(k.a[0]); } },
#define HX2(KA, KB, ...) { #__VA_ARGS__ " <" #KA "," #KB ">", 2, \
    [](hx::Args const &k) -> hx::uint64_t { return hx::with<KA>(k, 0, [&](auto &a) { return hx::with<KB>(k, 1, [&](auto &b) { (void)a; (void)b; return hx::fin(k, [&] { return __VA_ARGS__; }); }); }); }, \
    [](hx::Args const &k) { hx::prepare_one<KA>(k.a[0]); hx::prepare_one<KB>(k.a[1]); } },
