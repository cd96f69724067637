// Exhaustive search (C08): exactness, filters, batching and threading.
#pragma once
#include "gen.h"
#include "rows.h"

#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/index/flat/flat.h"
#include "svs/orchestrators/exhaustive.h"

namespace fl {
using namespace vh;
using svs::index::flat::FlatParameters;

// Row = the k best accepted vectors, compared through their exact values (ties are free).
template <typename Q, typename T>
void exact_row(
    Case& c, Metric m, const Mat<T>& data, const Q* q, const Res& x, size_t i, size_t k,
    const std::vector<Scored>& ranked, const std::function<bool(size_t)>& ok, const std::string& ctx,
    const std::function<size_t(size_t)>& slot_of = {}
) {
    std::function<const T*(size_t)> look = [&](size_t id) -> const T* {
        return id < data.n && (!ok || ok(id)) ? data.row(id) : nullptr;
    };
    check_row(c, m, data, q, x.ids(i), x.ds(i), k, ranked.size(), ctx, "C08", look);
    double sc = 0;
    for (auto& s : ranked) sc = std::max(sc, s.scale);
    for (size_t j = 0; j < k && j < ranked.size(); ++j) {
        Exact e{ranked[j].score, sc};
        if (!c.expect(std::fabs(x.ds(i)[j] - ranked[j].score) <= 2 * tol(e, data.d), "C08:not-nearest", "{}: query {} slot {}: id {} at {}, the exact answer is {} at {}", ctx, i, j, x.ids(i)[j], x.ds(i)[j], ranked[j].id, ranked[j].score)) return;
    }
}

template <typename Q, typename T, typename Dist, typename MakeData>
void exactness(Case& c, MakeData&& make_storage) {
    auto& r = c.rng;
    constexpr Metric m = metric_of<Dist>();
    size_t n = r.chance(0.1) ? 0 : r.chance(0.3) ? 1 + r.below(10) : 1 + r.below(300);
    size_t d = 1 + r.below(r.chance(0.3) ? 100 : 20);
    size_t nq = r.chance(0.08) ? 0 : r.chance(0.5) ? 1 + r.below(6) : 1 + r.below(60);
    size_t k = 1 + r.below(r.chance(0.2) ? n + 10 : 15);
    Shape shape = m == Metric::Cos ? r.one_of({Shape::Gauss, Shape::Uniform, Shape::Cluster}) : r.one_of({Shape::Gauss, Shape::Uniform, Shape::Cluster, Shape::Grid, Shape::Dups, Shape::Constant, Shape::Line, Shape::Scaled});
    bool distinct_scores = shape == Shape::Gauss || shape == Shape::Uniform || shape == Shape::Cluster;
    distinct_scores &= !std::is_integral_v<T> && d >= 4;
    auto data = make_data<T>(r, n, d, shape);
    auto queries = make_data<Q>(r, nq, d, m == Metric::Cos ? Shape::Gauss : shape);
    if (m == Metric::Cos) { // no zero vectors
        for (size_t i = 0; i < n; ++i) data.row(i)[0] = from_double<T>(as_double(data.row(i)[0]) + (std::is_integral_v<T> ? 5 : 0.25));
        auto zero = [](auto* p, size_t d) { return std::all_of(p, p + d, [](auto x) { return as_double(x) == 0; }); };
        for (size_t i = 0; i < n; ++i) if (zero(data.row(i), d)) data.row(i)[0] = from_double<T>(1);
        for (size_t i = 0; i < nq; ++i) if (zero(queries.row(i), d)) queries.row(i)[0] = from_double<Q>(1);
    }
    for (size_t i = 0; i < nq && n; ++i)
        if (r.chance(0.3)) {
            auto s = r.below(n);
            for (size_t j = 0; j < d; ++j) queries.row(i)[j] = from_double<Q>(as_double(data.row(s)[j]));
        }
    size_t threads = 1 + r.below(5);
    std::string ctx = fmt::format("{} {} {} {} n={} d={} nq={} k={} threads={}", tname<Q>(), tname<T>(), metric_name(m), shape_name(shape), n, d, nq, k, threads);
    c.step("{}", ctx);
    using Index = svs::index::flat::FlatIndex<std::decay_t<decltype(make_storage(r, data))>, Dist>;
    Index index(make_storage(r, data), Dist{}, threads);
    c.expect(index.size() == n && index.dimensions() == d, "C08:shape", "{}: size {} dimensions {}", ctx, index.size(), index.dimensions());
    c.expect(index.get_num_threads() == threads, "C08:threads", "{}: {} threads", ctx, index.get_num_threads());

    std::vector<std::vector<Scored>> ranked(nq);
    for (size_t i = 0; i < nq; ++i) ranked[i] = rank_all(m, queries.row(i), data);
    auto base = fresh(nq, k);
    index.search(base.r.view(), queries.view(), FlatParameters());
    for (size_t i = 0; i < nq; ++i) exact_row(c, m, data, queries.row(i), base, i, k, ranked[i], {}, ctx);

    // Execution settings make no difference.
    for (int rep = 0; rep < 3 && !c.failed; ++rep) {
        if (r.chance(0.5)) {
            threads = r.below(6);
            index.set_num_threads(threads);
            c.expect(index.get_num_threads() == std::max<size_t>(threads, 1), "C08:threads", "{}: {} threads after asking for {}", ctx, index.get_num_threads(), threads);
        }
        FlatParameters p(r.one_of({size_t(0), size_t(1), size_t(7), 1 + r.below(n + 5), n, n + 1}), r.one_of({size_t(0), size_t(1), size_t(3), 1 + r.below(nq + 5), nq, nq + 7}));
        index.set_search_parameters(p);
        auto got = index.get_search_parameters();
        c.expect(got.data_batch_size_ == p.data_batch_size_ && got.query_batch_size_ == p.query_batch_size_, "C08:parameters", "{}: search parameters changed", ctx);
        auto cx = fmt::format("{} data_batch={} query_batch={} threads={}", ctx, p.data_batch_size_, p.query_batch_size_, threads);
        c.step("{}", cx);
        std::function<bool(size_t)> ok;
        int kind = r.below(5);
        size_t cut = r.below(n + 2), mod = 2 + r.below(5);
        if (kind == 1) ok = [cut](size_t i) { return i >= cut; };
        if (kind == 2) ok = [mod](size_t i) { return i % mod == 0; };
        if (kind == 3) ok = [](size_t) { return false; };
        if (kind == 4) ok = [n](size_t i) { return i + 1 == n || i == 0; };
        auto x = fresh(nq, k);
        std::atomic<size_t> outside{0};
        if (ok) {
            index.search(x.r.view(), queries.view(), p, [&](size_t i) {
                if (i >= n) outside++;
                return ok(i);
            });
        } else {
            index.search(x.r.view(), queries.view(), p);
        }
        c.expect(outside == 0, "C08:predicate", "{}: filter asked about {} unknown ids", cx, outside.load());
        for (size_t i = 0; i < nq; ++i) {
            auto want = ok ? rank_all(m, queries.row(i), data, ok) : ranked[i];
            exact_row(c, m, data, queries.row(i), x, i, k, want, ok, cx + fmt::format(" filter={}", kind));
            if (!ok)
                for (size_t j = 0; j < std::min(k, n); ++j)
                    if (!c.expect(x.ds(i)[j] == base.ds(i)[j] && (!distinct_scores || x.ids(i)[j] == base.ids(i)[j]), "C08:batching", "{}: query {} slot {}: {} at {}, with defaults {} at {}", cx, i, j, x.ids(i)[j], x.ds(i)[j], base.ids(i)[j], base.ds(i)[j])) break;
        }
        c.obs("configurations");
    }
    // Concurrent searches over the same data through scoped indexes.
    if (r.chance(0.3) && n && nq) {
        auto storage = make_storage(r, data);
        svs::threads::NativeThreadPool pool(1 + r.below(3));
        auto tmp = svs::index::flat::temporary_flat_index(storage, Dist{}, pool);
        auto x = fresh(nq, k);
        tmp.search(x.r.view(), queries.view(), FlatParameters(1 + r.below(20), 0));
        for (size_t i = 0; i < nq; ++i) exact_row(c, m, data, queries.row(i), x, i, k, ranked[i], {}, ctx + " scoped");
    }
    c.distinct(fmt::format("{}|{}", ctx, c.index()));
    c.sample("{}", ctx);
}

template <typename Q, typename T, typename Dist> void contiguous(Case& c) {
    exactness<Q, T, Dist>(c, [](Rng&, const Mat<T>& m) { return to_data<svs::data::SimpleData<T>>(m); });
}
template <typename Q, typename T, typename Dist> void blocked(Case& c) {
    size_t bytes = 9 + c.rng.below(4);
    exactness<Q, T, Dist>(c, [bytes](Rng&, const Mat<T>& m) {
        using Data = svs::data::BlockedData<T>;
        svs::data::BlockingParameters bp{.blocksize_bytes = svs::lib::PowerOfTwo(bytes)};
        Data data(m.n, m.d, typename Data::allocator_type(bp));
        for (size_t i = 0; i < m.n; ++i) data.set_datum(i, m.span(i));
        return data;
    });
}
// The type-erased facade, assembled from data or from a file, by enum or by functor.
template <typename T> void facade(Case& c) {
    auto& r = c.rng;
    size_t n = 1 + r.below(150), d = 1 + r.below(24), nq = 1 + r.below(20), k = 1 + r.below(12);
    auto dt = r.one_of({svs::DistanceType::L2, svs::DistanceType::MIP, svs::DistanceType::Cosine});
    Metric m = dt == svs::DistanceType::L2 ? Metric::L2 : dt == svs::DistanceType::MIP ? Metric::IP : Metric::Cos;
    auto data = make_data<T>(r, n, d, Shape::Gauss);
    auto queries = make_data<float>(r, nq, d, Shape::Gauss);
    if (m == Metric::Cos)
        for (size_t i = 0; i < n; ++i) data.row(i)[0] = from_double<T>(as_double(data.row(i)[0]) >= 0 ? (std::is_integral_v<T> ? 10 : 1) : (std::is_integral_v<T> ? -10 : -1));
    if (std::is_same_v<T, uint8_t>)
        for (auto& x : queries.v) x = x * 40 + 120;
    std::string ctx = fmt::format("facade {} {} n={} d={} nq={} k={}", tname<T>(), metric_name(m), n, d, nq, k);
    c.step("{}", ctx);
    svs::Flat index = svs::Flat::assemble<svs::lib::Types<float>>(to_data<svs::data::SimpleData<T>>(data), dt, 1 + r.below(4));
    c.expect(index.size() == n && index.dimensions() == d, "C08:shape", "{}: size {} dimensions {}", ctx, index.size(), index.dimensions());
    Res x{index.search(queries.view(), k)};
    for (size_t i = 0; i < nq; ++i) exact_row(c, m, data, queries.row(i), x, i, k, rank_all(m, queries.row(i), data), {}, ctx);
    auto y = fresh(nq, k);
    FlatParameters p(1 + r.below(n), 1 + r.below(nq));
    index.search(y.r.view(), queries.view(), p);
    for (size_t i = 0; i < nq; ++i) exact_row(c, m, data, queries.row(i), y, i, k, rank_all(m, queries.row(i), data), {}, ctx + " batched");
    c.expect(index.can_change_threads(), "C08:facade-threads", "{}: cannot change threads", ctx);
    size_t t = 1 + r.below(4);
    index.set_num_threads(t);
    c.expect(index.get_num_threads() == t, "C08:facade-threads", "{}: {} threads after asking for {}", ctx, index.get_num_threads(), t);
    Res z{index.search(queries.view(), k)};
    for (size_t i = 0; i < nq; ++i) exact_row(c, m, data, queries.row(i), z, i, k, rank_all(m, queries.row(i), data), {}, ctx + " rethreaded");
    c.distinct(fmt::format("{}|{}", ctx, c.index()));
    c.sample("{}", ctx);
}
} // namespace fl
#define FL(tag, Q, T, Dist, D)                                                               \
    VH_SCENARIO(flat_##tag, "C08 C13 C14", 120 / D, 4000 / D) { fl::contiguous<Q, T, Dist>(c); }     \
    VH_SCENARIO(flatblk_##tag, "C08 C13 C14", 80 / D, 3000 / D) { fl::blocked<Q, T, Dist>(c); }
