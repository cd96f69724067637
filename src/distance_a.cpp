#include "distance_impl.h"
using F16 = svs::Float16;
DS(float, float, a_f32)
DS(float, F16, a_f16)
DS(float, int8_t, a_i8)
DS(float, uint8_t, a_u8)
// Directions, names and the dispatch from the enum.
VH_SCENARIO(directions, "C10 C23 C14", 40, 400) {
    using namespace svs;
    auto& r = c.rng;
    float x = float(r.normal()), y = float(r.normal());
    auto l2 = distance::comparator(DistanceL2{});
    auto ip = distance::comparator(DistanceIP{});
    auto co = distance::comparator(DistanceCosineSimilarity{});
    c.expect(l2(x, y) == (x < y) && !l2(x, x), "C10:direction-L2", "{} {}", x, y);
    c.expect(ip(x, y) == (x > y) && !ip(x, x), "C10:direction-IP", "{} {}", x, y);
    c.expect(co(x, y) == (x > y) && !co(x, x), "C10:direction-Cos", "{} {}", x, y);
    // Nearer means better: a vector against itself beats the opposite and far ones.
    size_t d = 1 + r.below(90);
    std::vector<float> a(d), b(d), n(d);
    for (size_t i = 0; i < d; ++i) {
        a[i] = float(r.normal()) + 0.01f;
        b[i] = a[i] * 3 + 1;
        n[i] = -a[i];
    }
    std::span<const float> sa(a), sb(b), sn(n);
    auto score = [&](auto f, auto s) {
        distance::maybe_fix_argument(f, sa);
        return distance::compute(f, sa, s);
    };
    c.expect(l2(score(DistanceL2{}, sa), score(DistanceL2{}, sb)), "C10:direction-L2", "d={}", d);
    c.expect(ip(score(DistanceIP{}, sa), score(DistanceIP{}, sn)), "C10:direction-IP", "d={}", d);
    c.expect(co(score(DistanceCosineSimilarity{}, sa), score(DistanceCosineSimilarity{}, sn)), "C10:direction-Cos", "d={}", d);
    for (auto t : {DistanceType::L2, DistanceType::MIP, DistanceType::Cosine}) {
        c.expect(parse_distance_type(name(t)) == t, "C10:name", "{}", name(t));
        int which = DistanceDispatcher(t)([](auto f) {
            return std::is_same_v<decltype(f), DistanceL2> ? 0 : std::is_same_v<decltype(f), DistanceIP> ? 1 : 2;
        });
        c.expect(which == int(t), "C23:distance-dispatch", "{} went to {}", name(t), which);
    }
    c.expect(vh::throws([&] { (void)parse_distance_type(r.one_of({"l2", "", "MI", "MIPS", "cosine", "L2 "})); }), "C10:name", "a wrong distance name was accepted");
    auto dir = c.scratch();
    lib::save_to_disk(DistanceL2(), dir / "l2");
    lib::save_to_disk(DistanceIP(), dir / "ip");
    (void)lib::load_from_disk<DistanceL2>(dir / "l2");
    c.expect(vh::throws([&] { (void)lib::load_from_disk<DistanceL2>(dir / "ip"); }) && vh::throws([&] { (void)lib::load_from_disk<DistanceCosineSimilarity>(dir / "ip"); }), "C18:distance-kind", "a saved distance loaded as another one");
    c.distinct(fmt::format("{} {}", d, c.index()));
}
