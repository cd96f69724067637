// Recall figures and automatic calibration (C21).
#include "gen.h"
#include "rows.h"

#include "svs/core/data.h"
#include "svs/core/recall.h"
#include "svs/orchestrators/dynamic_vamana.h"
#include "svs/orchestrators/vamana.h"

namespace {
using namespace vh;
namespace va = svs::index::vamana;

template <typename T> std::vector<std::vector<uint64_t>> rows(Rng& r, size_t n, size_t d, bool distinct, bool small) {
    std::vector<std::vector<uint64_t>> out(n);
    for (auto& row : out) {
        std::set<uint64_t> seen;
        while (row.size() < d) {
            uint64_t x = small ? r.below(std::max<size_t>(2 * d, 4)) : r() >> r.below(60);
            if (r.chance(0.15)) x += uint64_t(1) << 32; // looks like another id when cut to 32 bits
            if (!distinct && r.chance(0.1)) x = ~uint64_t(0); // an empty slot
            if (sizeof(T) < 8) x &= std::numeric_limits<T>::max();
            if (std::is_signed_v<T>) x &= uint64_t(std::numeric_limits<T>::max());
            if (distinct && !seen.insert(x).second) continue;
            row.push_back(x);
        }
    }
    return out;
}
// The same ids as a dataset, a matrix or a query result.
template <typename T, typename F> auto as_container(Rng& r, const std::vector<std::vector<uint64_t>>& rows, size_t d, F&& f) {
    size_t n = rows.size();
    switch (r.below(3)) {
        case 0: {
            svs::data::SimpleData<T> x(n, d);
            for (size_t i = 0; i < n; ++i) x.set_datum(i, std::vector<T>(rows[i].begin(), rows[i].end()));
            return f(x);
        }
        case 1: {
            auto x = svs::make_dense_array<T>(n, d);
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < d; ++j) x.at(i, j) = static_cast<T>(rows[i][j]);
            return f(x);
        }
        default: {
            svs::QueryResult<T> x(n, d);
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < d; ++j) x.index(i, j) = static_cast<T>(rows[i][j]);
            return f(x);
        }
    }
}
template <typename G, typename R> void recall(Case& c) {
    auto& r = c.rng;
    size_t n = 1 + r.below(r.chance(0.2) ? 200 : 12), dg = 1 + r.below(r.chance(0.2) ? 120 : 15), dr = 1 + r.below(r.chance(0.2) ? 120 : 15);
    bool small = r.chance(0.7);
    if (sizeof(G) == 1 || sizeof(R) == 1) dg = std::min<size_t>(dg, 40), dr = std::min<size_t>(dr, 40), small = false;
    auto gt = rows<G>(r, n, dg, true, small);
    auto rs = rows<R>(r, n, dr, false, small);
    double share = r.uniform();
    for (size_t i = 0; i < n; ++i) // real answers mostly agree with the truth
        for (size_t j = 0; j < dr; ++j)
            if (r.chance(share)) {
                uint64_t x = gt[i][r.chance(0.5) ? r.below(dg) : std::min(j, dg - 1)];
                if (sizeof(R) < 8 && x > uint64_t(std::numeric_limits<R>::max())) x = static_cast<R>(x) & std::numeric_limits<R>::max();
                rs[i][j] = x;
            }
    size_t k = r.chance(0.2) ? 0 : r.below(dg + 2), m = r.chance(0.2) ? 0 : r.below(dr + 2);
    bool fewer = r.chance(0.05);
    if (fewer) rs.pop_back();
    auto ctx = fmt::format("{} ids against {} ids: {} rows of {} and {} k={} n={}{}", tname<R>(), tname<G>(), n, dr, dg, k, m, fewer ? " (one row fewer)" : "");
    c.step("{}", ctx);
    c.distinct(fmt::format("{} {}", ctx, r()));
    size_t kk = k ? k : dr, mm = m ? m : dr; // documented defaults
    bool bad = fewer || kk > mm || kk > dg || mm > dr;
    double got = -1;
    bool threw = throws([&] {
        got = as_container<G>(r, gt, dg, [&](const auto& a) {
            return as_container<R>(r, rs, dr, [&](const auto& b) {
                if (k == 0 && m == 0 && r.chance(0.5)) return svs::k_recall_at_n(a, b);
                return svs::k_recall_at_n(a, b, k, m);
            });
        });
    });
    c.obs(bad ? "recall_refusals" : "recall_values");
    if (!c.expect(threw == bad, bad ? "C21:recall-accepted" : "C21:recall-refused", "{}: {}", ctx, bad ? "mismatching shapes were accepted" : "refused")) return;
    if (bad) return;
    size_t hits = 0;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < kk; ++j) hits += std::find(rs[i].begin(), rs[i].begin() + mm, gt[i][j]) != rs[i].begin() + mm;
    double want = double(hits) / double(kk * n);
    c.expect(std::fabs(got - want) <= 1e-12, "C21:recall", "{}: recall {} instead of {} ({} hits)", ctx, got, want, hits);
    c.expect(got >= 0 && got <= 1, "C21:recall-range", "{}: recall {}", ctx, got);
}

// ---- calibration
template <typename Dist> struct Calib {
    static constexpr Metric m = metric_of<Dist>();
    static double truth_recall(const svs::QueryResult<size_t>& res, const std::vector<std::vector<uint32_t>>& gt, size_t k) {
        size_t hits = 0;
        for (size_t i = 0; i < gt.size(); ++i)
            for (size_t j = 0; j < k; ++j)
                for (size_t t = 0; t < k; ++t) hits += res.index(i, t) == gt[i][j];
        return double(hits) / double(k * gt.size());
    }
    // typed indexes write into a view, facades take parameters the same way
    template <typename Index> static svs::QueryResult<size_t> run(const Index& index, const Mat<float>& q, size_t k, const va::VamanaSearchParameters& p) {
        svs::QueryResult<size_t> res(q.n, k);
        if constexpr (requires { index.search(res.view(), q.cview(), p); }) index.search(res.view(), q.cview(), p);
        return res;
    }
};

template <typename Dist> void calibrate(Case& c) {
    auto& r = c.rng;
    using M = Calib<Dist>;
    constexpr Metric m = metric_of<Dist>();
    size_t n = 60 + r.below(400), d = 2 + r.below(14), nq = 3 + r.below(25), k = 1 + r.below(12);
    auto shape = r.one_of({Shape::Gauss, Shape::Uniform, Shape::Cluster});
    auto data = make_data<float>(r, n, d, shape);
    no_zeros(data);
    auto q = make_data<float>(r, nq, d, shape);
    no_zeros(q);
    size_t kind = r.below(4); // typed static, facade static, typed dynamic, facade dynamic
    bool dynamic = kind >= 2;
    std::vector<size_t> ext(n);
    std::iota(ext.begin(), ext.end(), 0);
    if (dynamic)
        for (size_t i = 0; i < n; ++i) ext[i] = i * 7 + 3;
    // Low degrees leave something to gain from larger windows.
    float alpha = m == Metric::L2 ? 1.2f : 0.95f;
    size_t deg = 4 + r.below(10);
    va::VamanaBuildParameters bp{alpha, deg, 2 * deg, 60, deg, r.chance(0.5)};
    std::set<size_t> gone;
    if (dynamic && r.chance(0.5))
        for (size_t i = r.below(n / 4); i > 0; --i) gone.insert(r.below(n));
    size_t gk = k + r.below(4);
    std::vector<std::vector<uint32_t>> gt(nq);
    svs::data::SimpleData<uint32_t> gtd(nq, gk);
    for (size_t i = 0; i < nq; ++i) {
        auto ranked = rank_all(m, q.row(i), data, [&](size_t j) { return !gone.count(j); });
        for (size_t j = 0; j < gk; ++j) gt[i].push_back(static_cast<uint32_t>(ext[ranked[j].id]));
        gtd.set_datum(i, gt[i]);
    }
    auto queries = to_data<svs::data::SimpleData<float>>(q);
    va::CalibrationParameters cp;
    size_t lower = r.chance(0.15) ? 1 + r.below(k) : k + 1 + r.below(r.chance(0.5) ? 20 : 150);
    cp.search_window_size_upper_ = lower;
    cp.search_window_capacity_upper_ = lower + r.below(40);
    cp.timing_iterations_ = 1 + r.below(2);
    cp.search_timeout_ = r.chance(0.5) ? 0 : 0.001;
    using SBO = va::CalibrationParameters::SearchBufferOptimization;
    cp.search_buffer_optimization_ = r.one_of({SBO::All, SBO::All, SBO::ROIOnly, SBO::ROITuneUp, SBO::Disable});
    cp.train_prefetchers_ = r.chance(0.6);
    cp.use_existing_parameter_values_ = r.chance(0.5);
    if (r.chance(0.3)) cp.prefetch_steps_ = {1, 3};
    double target = r.one_of({0.0, 0.2, 0.5, 0.8, 0.9, 0.95, 1.0, r.uniform()});
    va::VamanaSearchParameters preset{va::SearchBufferConfig(1 + r.below(20), 20 + r.below(40)), r.chance(0.5), r.below(6), r.below(4)};
    const char* names[] = {"typed static", "facade static", "typed dynamic", "facade dynamic"};
    auto ctx = fmt::format("{} {} {} n={} d={} k={} queries={} degree={} upper={} capacity upper={} target={:.3f} {}{}{} deleted={} preset window {} capacity {}", names[kind], metric_name(m), shape_name(shape), n, d, k, nq, deg, cp.search_window_size_upper_, cp.search_window_capacity_upper_, target, cp.search_buffer_optimization_, cp.train_prefetchers_ ? " prefetch" : "", cp.use_existing_parameter_values_ ? " existing" : "", gone.size(), preset.buffer_config_.get_search_window_size(), preset.buffer_config_.get_total_capacity());
    c.step("{}", ctx);
    c.distinct(ctx);

    auto judge = [&](auto& index, auto&& calib) {
        index.set_search_parameters(preset);
        // Attainable with the largest permitted window?
        auto start = cp.use_existing_parameter_values_ ? preset : va::VamanaSearchParameters();
        auto largest = start;
        size_t top = std::max(k, lower - 1);
        size_t own = start.buffer_config_.get_total_capacity();
        if (cp.search_buffer_optimization_ == SBO::ROITuneUp) largest.buffer_config(va::SearchBufferConfig(top, std::max(top, own)));
        else largest.buffer_config(va::SearchBufferConfig(top));
        auto recall_of = [&](const va::VamanaSearchParameters& p) {
            index.set_search_parameters(p);
            svs::QueryResult<size_t> res(nq, k);
            if constexpr (requires { index.search(res.view(), queries, p); }) index.search(res.view(), queries, p);
            else res = index.search(queries, k);
            return std::pair(M::truth_recall(res, gt, k), std::move(res));
        };
        double best = recall_of(largest).first;
        index.set_search_parameters(preset);
        va::VamanaSearchParameters p = calib(index);
        c.expect(index.get_search_parameters() == p, "C21:calibration-installed", "{}: other parameters are installed than were returned", ctx);
        auto [reached, res] = recall_of(p);
        // Through the installed parameters as well.
        svs::QueryResult<size_t> plain(nq, k);
        if constexpr (requires { index.search(plain.view(), queries, p); }) index.search(plain.view(), queries, index.get_search_parameters());
        else plain = index.search(queries, k);
        bool same = true;
        for (size_t i = 0; i < nq; ++i)
            for (size_t j = 0; j < k; ++j) same &= plain.index(i, j) == res.index(i, j);
        c.expect(same, "C21:calibration-answers", "{}: answers differ with the installed parameters", ctx);
        bool optimised = cp.search_buffer_optimization_ != SBO::Disable;
        if (optimised && lower > k && best >= target) {
            c.expect(reached >= target, "C21:calibration-recall", "{}: reaches {} with window {} capacity {} although window {} reaches {}", ctx, reached, p.buffer_config_.get_search_window_size(), p.buffer_config_.get_total_capacity(), top, best);
            c.obs("calibrations_attainable");
        } else c.obs("calibrations_other");
        size_t w = p.buffer_config_.get_search_window_size();
        if (optimised) c.expect(w >= 1 && w <= std::max(lower, k), "C21:calibration-window", "{}: window {}", ctx, w);
        else c.expect(p.buffer_config_ == start.buffer_config_, "C21:calibration-buffer", "{}: the search buffer was changed", ctx);
        c.expect(p.search_buffer_visited_set_ == start.search_buffer_visited_set_, "C21:calibration-visited", "{}: the visited set was changed", ctx);
        if (!cp.train_prefetchers_) c.expect(p.prefetch_lookahead_ == start.prefetch_lookahead_ && p.prefetch_step_ == start.prefetch_step_, "C21:calibration-prefetch", "{}: prefetching was changed", ctx);
        for (size_t i = 0; i < nq; ++i) {
            auto lookup = [&](size_t id) -> const float* {
                if (!dynamic) return id < n ? data.row(id) : nullptr;
                if (id < 3 || (id - 3) % 7 || (id - 3) / 7 >= n || gone.count((id - 3) / 7)) return nullptr;
                return data.row((id - 3) / 7);
            };
            check_row<float, float>(c, m, data, q.row(i), &res.index(i, 0), &res.distance(i, 0), k, NONE, ctx, "C21", lookup);
        }
        // Unusable requests change nothing.
        if (r.chance(0.3)) {
            svs::data::SimpleData<uint32_t> wrong(nq + 1, gk);
            for (size_t i = 0; i <= nq; ++i) wrong.set_datum(i, gt[0]);
            auto before = index.get_search_parameters();
            cp.search_buffer_optimization_ = SBO::All;
            bool threw = throws([&] {
                if constexpr (requires { index.calibrate(queries, wrong, k, target, cp); }) index.calibrate(queries, wrong, k, target, cp);
                else index.experimental_calibrate(queries, wrong, k, target, cp);
            });
            c.expect(threw || lower <= k, "C21:calibration-mismatch", "{}: a ground truth for other queries was accepted", ctx);
            if (threw) c.expect(index.get_search_parameters() == before, "C21:calibration-mismatch", "{}: a refused calibration changed the parameters", ctx);
        }
        c.obs("calibrations");
    };
    auto typed = [&](auto& index) { return index.calibrate(queries, gtd, k, target, cp); };
    auto erased = [&](auto& index) { return index.experimental_calibrate(queries, gtd, k, target, cp); };
    size_t threads = 1 + r.below(4);
    Dist dist{};
    std::vector<size_t> dead;
    for (auto i : gone) dead.push_back(ext[i]);
    switch (kind) {
        case 0: {
            auto index = va::auto_build(bp, to_data<svs::data::SimpleData<float>>(data), dist, threads);
            judge(index, typed);
            break;
        }
        case 1: {
            auto index = svs::Vamana::build<float>(bp, to_data<svs::data::SimpleData<float>>(data), dist, threads);
            judge(index, erased);
            break;
        }
        case 2: {
            va::MutableVamanaIndex index(bp, to_data<svs::data::BlockedData<float>>(data), ext, dist, threads);
            if (!dead.empty()) index.delete_entries(dead);
            judge(index, typed);
            break;
        }
        default: {
            auto index = svs::DynamicVamana::build<float>(bp, to_data<svs::data::BlockedData<float>>(data), std::span<const size_t>(ext), dist, threads);
            if (!dead.empty()) index.delete_points(dead);
            judge(index, erased);
        }
    }
}
} // namespace

VH_SCENARIO(recall_figures, "C21 C14", 300, 20000) {
    switch (c.rng.below(6)) {
        case 0: return recall<uint32_t, uint32_t>(c);
        case 1: return recall<size_t, size_t>(c);
        case 2: return recall<uint32_t, size_t>(c);
        case 3: return recall<size_t, uint32_t>(c);
        case 4: return recall<int32_t, size_t>(c);
        default: return recall<uint8_t, uint32_t>(c);
    }
}
VH_SCENARIO(calibration_l2, "C21 C14 C13", 40, 2000) { calibrate<svs::distance::DistanceL2>(c); }
VH_SCENARIO(calibration_ip, "C21 C14 C13", 24, 1000) { calibrate<svs::distance::DistanceIP>(c); }
VH_SCENARIO(calibration_cosine, "C21 C14 C13", 24, 1000) { calibrate<svs::distance::DistanceCosineSimilarity>(c); }
