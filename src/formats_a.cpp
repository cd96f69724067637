#include "formats_impl.h"
VH_SCENARIO(vecs_float, "C19 C18 C14", 60, 3000) { fo::vecs<float>(c); }
VH_SCENARIO(vecs_half, "C19 C18 C14", 60, 3000) { fo::vecs<svs::Float16>(c); }
VH_SCENARIO(vecs_byte, "C19 C18 C14", 60, 3000) { fo::vecs<uint8_t>(c); }
VH_SCENARIO(vecs_int8, "C19 C18 C14", 60, 3000) { fo::vecs<int8_t>(c); }
VH_SCENARIO(vecs_int, "C19 C18 C14", 60, 3000) {
    switch (c.index() % 4) {
        case 0: fo::vecs<uint32_t>(c); break;
        case 1: fo::vecs<int32_t>(c); break;
        case 2: fo::vecs<uint64_t>(c); break;
        default: fo::vecs<double>(c);
    }
}
VH_SCENARIO(results_vecs, "C19 C14", 40, 2000) {
    // Neighbor ids of a search saved as integer vecs.
    using namespace fo;
    auto& r = c.rng;
    size_t n = r.below(30) + 1, k = 1 + r.below(20);
    auto run = [&](auto tag) {
        using I = decltype(tag);
        auto res = svs::QueryResult<I>(n, k);
        Mat<uint32_t> want(n, k);
        bool fits = true, wide = r.chance(0.2) && sizeof(I) == 8;
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < k; ++j) {
                uint64_t x = r.below(1ULL << 32);
                if (wide && r.chance(0.05)) x = (1ULL << 32) + r.below(1000), fits = false;
                res.index(i, j) = I(x);
                want.row(i)[j] = uint32_t(x);
            }
        }
        auto p = c.scratch() / "r.ivecs";
        bool refused = throws([&] { res.save_vecs(p.string()); });
        c.expect(refused == !fits, "C19:results", "{} ids {}x{}: {}", tname<I>(), n, k, fits ? "refused" : "ids that do not fit were written");
        if (fits) {
            auto got = slurp(p), expect = enc_vecs(want);
            c.expect(got == expect, "C19:results-bytes", "{} ids {}x{}: {}", tname<I>(), n, k, where(got, expect));
        }
        c.distinct(fmt::format("{} {} {} {}", tname<I>(), n, k, wide));
        c.sample("{} ids {}x{}", tname<I>(), n, k);
    };
    if (r.chance(0.5)) run(uint32_t{});
    else run(uint64_t{});
}
