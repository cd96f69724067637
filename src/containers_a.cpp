#include "containers_impl.h"
using namespace ct;
namespace {
svs::threads::NativeThreadPool& pool() {
    static svs::threads::NativeThreadPool p(3);
    return p;
}
template <typename T, size_t E = svs::Dynamic> void plain(Case& c) {
    size_t d = E == svs::Dynamic ? 1 + c.rng.below(c.rng.chance(0.2) ? 200 : 20) : E;
    using D = svs::data::SimpleData<T, E>;
    collection<D>(c, d, [&](size_t n) { return D(n, d); }, pool());
}
template <typename T, bool P> void tracked(Case& c) {
    size_t d = 1 + c.rng.below(20);
    using A = Tracked<T, P>;
    using D = svs::data::SimpleData<T, svs::Dynamic, A>;
    int k = 0;
    bool one = c.rng.chance(0.5);
    collection<D>(c, d, [&](size_t n) { return D(n, d, A(one ? 1 : ++k)); }, pool());
}
template <typename T, size_t E = svs::Dynamic> void blocked(Case& c) {
    size_t d = E == svs::Dynamic ? 1 + c.rng.below(20) : E;
    using D = svs::data::BlockedData<T, E>;
    // A few rows to a block.
    size_t need = std::bit_width(sizeof(T) * d);
    auto p = svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(need + c.rng.below(6))};
    bool def = c.rng.chance(0.2);
    collection<D>(c, d, [&](size_t n) {
        return def ? D(n, d) : D(n, d, svs::data::Blocked<svs::lib::Allocator<T>>(p));
    }, pool());
}
template <typename T, bool P> void blocked_tracked(Case& c) {
    size_t d = 1 + c.rng.below(20);
    using A = Tracked<T, P>;
    using D = svs::data::BlockedData<T, svs::Dynamic, A>;
    auto p = svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(std::bit_width(sizeof(T) * d) + c.rng.below(6))};
    int k = 0;
    bool one = c.rng.chance(0.5);
    collection<D>(c, d, [&](size_t n) { return D(n, d, svs::data::Blocked<A>(p, A(one ? 1 : ++k))); }, pool());
}
} // namespace
VH_SCENARIO(coll_float, "C16 C14", 40, 2000) { plain<float>(c); }
VH_SCENARIO(coll_f16, "C16 C14", 30, 2000) { plain<svs::Float16>(c); }
VH_SCENARIO(coll_u32_fixed, "C16 C14", 30, 2000) { plain<uint32_t, 7>(c); }
VH_SCENARIO(coll_i8, "C16 C14", 30, 2000) { plain<int8_t>(c); }
VH_SCENARIO(coll_tracked, "C16 C14", 60, 4000) { if (c.rng.chance(0.5)) tracked<float, true>(c); else tracked<uint16_t, false>(c); }
VH_SCENARIO(coll_huge, "C16 C14", 20, 1000) {
    size_t d = 1 + c.rng.below(20);
    using D = svs::data::SimpleData<uint32_t, svs::Dynamic, svs::HugepageAllocator<uint32_t>>;
    collection<D>(c, d, [&](size_t n) { return D(n, d); }, pool());
    c.expect(svs::detail::GenericHugepageAllocator::get_allocations().empty(), "huge-leak", "memory maps were left behind");
}
VH_SCENARIO(coll_blocked, "C16 C14", 40, 2000) { blocked<float>(c); }
VH_SCENARIO(coll_blocked_fixed, "C16 C14", 30, 2000) { blocked<uint8_t, 13>(c); }
VH_SCENARIO(coll_blocked_tracked, "C16 C14", 60, 4000) { if (c.rng.chance(0.5)) blocked_tracked<float, true>(c); else blocked_tracked<int32_t, false>(c); }

VH_SCENARIO(views_contiguous, "C16 C14", 60, 3000) {
    views(c, svs::data::SimpleData<float>(1 + c.rng.below(60), 1 + c.rng.below(12)));
}
VH_SCENARIO(views_blocked, "C16 C14", 60, 3000) {
    size_t d = 1 + c.rng.below(12);
    auto p = svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(std::bit_width(2 * d) + 2)};
    views(c, svs::data::BlockedData<int16_t>(1 + c.rng.below(60), d, svs::data::Blocked<svs::lib::Allocator<int16_t>>(p)));
}
