#include "flat_impl.h"
using namespace svs::distance;
FL(f32_l2, float, float, DistanceL2, 1)
FL(f32_ip, float, float, DistanceIP, 1)
FL(f32_cos, float, float, DistanceCosineSimilarity, 1)
FL(f16_ip, float, svs::Float16, DistanceIP, 2)
VH_SCENARIO(facade_f32, "C08 C23 C13 C14", 60, 2000) { fl::facade<float>(c); }

// The top-k collectors by themselves.
template <typename Cmp> static void collector(vh::Case& c) {
    auto& r = c.rng;
    using N = svs::Neighbor<size_t>;
    size_t batch = 1 + r.below(5), k = 1 + r.below(20), n = r.below(200);
    Cmp cmp{};
    svs::index::flat::BulkInserter<N, Cmp> bulk(batch, k, cmp);
    for (int round = 0; round < 2; ++round) {
        bulk.prepare();
        std::vector<std::vector<N>> all(batch);
        std::vector<N> lin(k);
        svs::index::flat::LinearInserter li(lin.begin(), lin.end(), cmp);
        li.prepare();
        for (size_t i = 0; i < n; ++i) {
            size_t b = r.below(batch);
            N x{i, float(r.in(-30, 30)) * (r.chance(0.1) ? 1e30f : 1.0f)};
            all[b].push_back(x);
            bulk.insert(b, x);
            if (b == 0) li.insert(x);
        }
        bulk.cleanup();
        li.cleanup();
        for (size_t b = 0; b < batch; ++b) {
            std::stable_sort(all[b].begin(), all[b].end(), cmp);
            auto got = bulk.result(b);
            std::set<size_t> ids;
            for (size_t j = 0; j < k; ++j) {
                bool has = j < all[b].size();
                bool ok = has ? got[j].distance() == all[b][j].distance() && got[j].id() != vh::NONE && ids.insert(got[j].id()).second : got[j].id() == vh::NONE;
                if (!c.expect(ok, "C08:collector", "batch {} slot {} of {} offered {}: id {} at {}", b, j, k, all[b].size(), got[j].id(), got[j].distance())) return;
                if (b == 0) {
                    ok = has ? lin[j].distance() == all[b][j].distance() : lin[j].id() == vh::NONE;
                    if (!c.expect(ok, "C08:linear-collector", "slot {} of {} offered {}: id {} at {}", j, k, all[b].size(), lin[j].id(), lin[j].distance())) return;
                }
            }
        }
        c.obs("collections_checked", batch);
    }
    c.distinct(fmt::format("{} {} {} {}", batch, k, n, c.index()));
}
VH_SCENARIO(collector_less, "C08 C14", 200, 20000) { collector<std::less<>>(c); }
VH_SCENARIO(collector_greater, "C08 C14", 200, 20000) { collector<std::greater<>>(c); }
