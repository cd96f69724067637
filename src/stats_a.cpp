// Means, variances, medioids and k-means against extended-precision arithmetic (C22).
#include "gen.h"

#include "svs/core/data.h"
#include "svs/core/kmeans.h"
#include "svs/core/medioid.h"
#include "svs/index/inverted/clustering.h"
#include "svs/lib/threads.h"

namespace {
using namespace vh;
namespace th = svs::threads;
namespace ut = svs::utils;

using LD = long double;

struct Sums {
    size_t count = 0;
    std::vector<LD> mean, mag, var;
};
template <typename T> Sums exact_mean(const Mat<T>& m, const std::vector<bool>& ok) {
    Sums s;
    s.mean.assign(m.d, 0);
    s.mag.assign(m.d, 0);
    s.var.assign(m.d, 0);
    for (size_t i = 0; i < m.n; ++i) {
        if (!ok[i]) continue;
        ++s.count;
        for (size_t j = 0; j < m.d; ++j) {
            s.mean[j] += as_double(m.row(i)[j]);
            s.mag[j] += std::fabs(as_double(m.row(i)[j]));
        }
    }
    for (size_t j = 0; j < m.d; ++j) {
        s.mean[j] /= s.count;
        s.mag[j] /= s.count;
    }
    for (size_t i = 0; i < m.n; ++i) {
        if (!ok[i]) continue;
        for (size_t j = 0; j < m.d; ++j) {
            LD x = as_double(m.row(i)[j]) - s.mean[j];
            s.var[j] += x * x;
        }
    }
    for (auto& v : s.var) v /= s.count;
    return s;
}
template <typename T> LD square_distance(const T* p, const std::vector<LD>& q) {
    LD s = 0;
    for (size_t j = 0; j < q.size(); ++j) {
        LD x = as_double(p[j]) - q[j];
        s += x * x;
    }
    return s;
}
// A map with state of its own, as decompressors have.
struct Doubling {
    std::vector<double> scratch;
    template <typename S> const std::vector<double>& operator()(const S& x) {
        scratch.resize(x.size());
        for (size_t i = 0; i < x.size(); ++i) scratch[i] = 2 * as_double(x[i]) + 1;
        return scratch;
    }
};

template <typename T> Mat<T> points(Rng& r, std::string& what) {
    size_t n = r.chance(0.05) ? 1 : r.chance(0.4) ? 1 + r.below(20) : 1 + r.below(r.chance(0.1) ? 4000 : 600);
    size_t d = 1 + r.below(r.chance(0.2) ? 40 : 8);
    auto shape = r.one_of({Shape::Gauss, Shape::Uniform, Shape::Cluster, Shape::Grid, Shape::Dups, Shape::Constant, Shape::Line, Shape::Scaled});
    auto m = make_data<T>(r, n, d, shape);
    what = fmt::format("{} {} n={} d={}", tname<T>(), shape_name(shape), n, d);
    if constexpr (std::is_same_v<T, float>) {
        if (r.chance(0.12)) { // far from the origin, or of extreme magnitude
            double f = r.one_of({1e-30, 1e-12, 1e12, 1e25, 1e34});
            for (auto& x : m.v) x = static_cast<float>(x * f);
            what += fmt::format(" times {}", f);
        } else if (r.chance(0.1)) {
            double o = r.one_of({1e3, 1e6, -1e5});
            for (auto& x : m.v) x += o;
            what += fmt::format(" plus {}", o);
        }
    }
    return m;
}

template <typename T, typename Data> void medioid(Case& c, const char* kind) {
    auto& r = c.rng;
    std::string ctx;
    auto m = points<T>(r, ctx);
    size_t n = m.n, d = m.d;
    auto data = Data(n, d);
    for (size_t i = 0; i < n; ++i) data.set_datum(i, m.span(i));
    std::vector<bool> ok(n, true);
    bool filtered = r.chance(0.5);
    if (filtered) {
        double keep = r.one_of({0.03, 0.3, 0.7, 0.95});
        for (size_t i = 0; i < n; ++i) ok[i] = r.chance(keep);
        ok[r.below(n)] = true;
    }
    size_t threads = 1 + r.below(8);
    ut::PairwiseSumParameters pp{
        size_t(r.chance(0.3) ? 1 : 1 + r.below(60)), size_t(r.chance(0.3) ? 1 + r.below(8) : r.chance(0.5) ? 1 + r.below(n + 5) : 1'000'000)};
    if (r.chance(0.2)) pp = {};
    bool mapped = r.chance(0.25);
    ctx = fmt::format("{} {} accepted={} threads={} linear={} batch={}{}", kind, ctx, std::count(ok.begin(), ok.end(), true), threads, pp.linear_threshold, pp.thread_batchsize, mapped ? " mapped" : "");
    c.step("{}", ctx);
    c.distinct(ctx);
    th::NativeThreadPool pool(threads);
    auto pred = [&](size_t i) { return bool(ok[i]); };
    auto s = exact_mean(m, ok);
    std::vector<double> mean;
    size_t best;
    if (mapped) {
        mean = ut::compute_medioid(data, pool, pred, Doubling{}, pp);
        for (auto& x : mean) x = (x - 1) / 2;
        best = ut::find_medioid(data, pool, pred, Doubling{}, pp);
    } else if (filtered) {
        mean = ut::compute_medioid(data, pool, pred, svs::lib::identity(), pp);
        best = ut::find_medioid(data, pool, pred, svs::lib::identity(), pp);
    } else {
        mean = ut::compute_medioid(data, pool, svs::lib::ReturnsTrueType(), svs::lib::identity(), pp);
        best = r.chance(0.3) ? ut::find_medioid(data, threads) : ut::find_medioid(data, pool, svs::lib::ReturnsTrueType(), svs::lib::identity(), pp);
    }
    if (!c.expect(mean.size() == d, "C22:mean", "{}: mean of {} dimensions", ctx, mean.size())) return;
    for (size_t j = 0; j < d; ++j) {
        LD err = std::fabs(mean[j] - s.mean[j]), lim = (s.mag[j] + (mapped ? 1 : 0)) * 1e-13 + 1e-300L;
        if (!c.expect(err <= lim, "C22:mean", "{}: mean of component {} is {} instead of {}", ctx, j, mean[j], double(s.mean[j]))) return;
    }
    c.obs("means");
    if (!c.expect(best < n, "C22:medioid-none", "{}: no medioid ({})", ctx, best)) return;
    if (!c.expect(ok[best], "C22:medioid-rejected", "{}: the medioid {} was not acceptable", ctx, best)) return;
    LD low = std::numeric_limits<LD>::max(), mine = square_distance(m.row(best), s.mean), spread = 0;
    for (size_t j = 0; j < d; ++j) spread += s.mag[j] * s.mag[j];
    for (size_t i = 0; i < n; ++i)
        if (ok[i]) low = std::min(low, square_distance(m.row(i), s.mean));
    // The mean is rounded, and so is the comparison.
    LD slack = low * 1e-6 + std::sqrt(low) * std::sqrt(spread) * 1e-11 + spread * 1e-22 + (mapped ? 1e-13 : 0) * (1 + low);
    if constexpr (std::is_same_v<T, float>) slack += 1e-37;
    c.expect(mine <= low + slack, "C22:medioid", "{}: medioid {} at squared distance {} from the mean although {} exists", ctx, best, double(mine), double(low));
    c.obs("medioids");
    // Variances around the mean, by the same reduction.
    auto var = ut::op_pairwise(data, ut::CountVariance(std::vector<double>(s.mean.begin(), s.mean.end())), pool, pred, svs::lib::identity(), pp);
    if (!c.expect(var.size() == d, "C22:variance", "{}: variance of {} dimensions", ctx, var.size())) return;
    for (size_t j = 0; j < d; ++j) {
        LD lim = s.var[j] * 1e-11 + s.mag[j] * s.mag[j] * 1e-22 + 1e-300L;
        lim += std::sqrt(s.var[j]) * s.mag[j] * 1e-13;
        if (!c.expect(std::fabs(var[j] - s.var[j]) <= lim, "C22:variance", "{}: variance of component {} is {} instead of {}", ctx, j, var[j], double(s.var[j]))) return;
    }
    c.obs("variances");
}

// ---- k-means
template <typename T> LD mse(const Mat<T>& m, const svs::data::SimpleData<float>& cs) {
    LD s = 0;
    for (size_t i = 0; i < m.n; ++i) {
        LD low = std::numeric_limits<LD>::max();
        for (size_t k = 0; k < cs.size(); ++k) {
            LD t = 0;
            for (size_t j = 0; j < m.d; ++j) {
                LD x = as_double(m.row(i)[j]) - LD(cs.get_datum(k)[j]);
                t += x * x;
            }
            low = std::min(low, t);
        }
        s += low;
    }
    return s / m.n;
}
template <typename T> void kmeans(Case& c) {
    auto& r = c.rng;
    size_t n = 1 + r.below(r.chance(0.3) ? 12 : 250), d = 1 + r.below(10);
    auto shape = r.one_of({Shape::Gauss, Shape::Uniform, Shape::Cluster, Shape::Grid, Shape::Dups, Shape::Constant, Shape::Line});
    auto m = make_data<T>(r, n, d, shape);
    auto data = to_data<svs::data::SimpleData<T>>(m);
    size_t k = r.chance(0.1) ? n : 1 + r.below(std::min<size_t>(n, 12)), epochs = r.below(7);
    bool full = r.chance(0.5);
    size_t batch = full ? n + r.below(3) * r.below(100) : 1 + r.below(n);
    size_t seed = r(), threads = 1 + r.below(6);
    auto ctx = fmt::format("{} {} n={} d={} clusters={} batch={} epochs={} threads={}", tname<T>(), shape_name(shape), n, d, k, batch, epochs, threads);
    c.step("{}", ctx);
    c.distinct(fmt::format("{} {}", ctx, seed));
    th::NativeThreadPool pool(threads);
    // Where it starts: distinct vectors of the dataset.
    auto first = svs::train(svs::KMeansParameters{k, batch, 0, seed}, data, pool.size());
    if (!c.expect(first.size() == k && first.dimensions() == d, "C22:kmeans-shape", "{}: {} initial centroids of {} dimensions", ctx, first.size(), first.dimensions())) return;
    std::multiset<std::vector<float>> stock;
    for (size_t i = 0; i < n; ++i) {
        std::vector<float> v;
        for (size_t j = 0; j < d; ++j) v.push_back(static_cast<float>(as_double(m.row(i)[j])));
        stock.insert(v);
    }
    for (size_t i = 0; i < k; ++i) {
        auto x = first.get_datum(i);
        auto it = stock.find(std::vector<float>(x.begin(), x.end()));
        if (!c.expect(it != stock.end(), "C22:kmeans-start", "{}: initial centroid {} is not a vector of the dataset of its own", ctx, i)) return;
        stock.erase(it);
    }
    std::vector<LD> lo(d, 1e30L), hi(d, -1e30L);
    LD scale = 0;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < d; ++j) {
            LD x = as_double(m.row(i)[j]);
            lo[j] = std::min(lo[j], x);
            hi[j] = std::max(hi[j], x);
            scale = std::max(scale, std::fabs(x));
        }
    LD slack = scale * 1e-5 + 1e-30L, slack2 = LD(d) * scale * scale * 2e-5 + 1e-30L;
    LD last = mse(m, first);
    size_t calls = 0;
    std::vector<LD> trace{last};
    auto watch = [&](const auto&, const auto& centroids, auto&, auto&) {
        ++calls;
        c.obs("kmeans_epochs");
        if (!c.expect(centroids.size() == k && centroids.dimensions() == d, "C22:kmeans-shape", "{}: {} centroids of {} dimensions", ctx, centroids.size(), centroids.dimensions())) return;
        for (size_t i = 0; i < k; ++i)
            for (size_t j = 0; j < d; ++j) {
                LD x = centroids.get_datum(i)[j];
                // Convex combinations of data stay inside its bounding box.
                c.expect(std::isfinite(centroids.get_datum(i)[j]) && x >= lo[j] - slack && x <= hi[j] + slack, "C22:kmeans-range", "{}: centroid {} has component {} outside the data", ctx, i, double(x));
            }
        LD now = mse(m, centroids);
        double lib = svs::mean_squared_error(data, centroids, pool);
        c.expect(std::fabs(lib - now) <= now * 1e-4 + slack2, "C22:kmeans-objective", "{}: mean squared error reported as {} instead of {}", ctx, lib, double(now));
        if (batch >= n) {
            c.expect(now <= last + std::fabs(last) * 1e-5 + slack2, "C22:kmeans-increase", "{}: epoch {} raised the objective from {} to {}", ctx, calls, double(last), double(now));
            c.obs("kmeans_full_epochs_judged");
        }
        last = now;
        trace.push_back(now);
    };
    auto params = svs::KMeansParameters{k, batch, epochs, seed};
    auto result = svs::train(params, data, threads, watch);
    c.expect(calls == epochs, "C22:kmeans-epochs", "{}: {} epochs ran", ctx, calls);
    if (!c.expect(result.size() == k && result.dimensions() == d, "C22:kmeans-shape", "{}: {} centroids of {} dimensions", ctx, result.size(), result.dimensions())) return;
    // The same whatever the number of threads and the callback.
    auto again = svs::train(params, data, 1 + r.below(6));
    bool same = true;
    for (size_t i = 0; i < k; ++i)
        for (size_t j = 0; j < d; ++j) same &= result.get_datum(i)[j] == again.get_datum(i)[j];
    c.expect(same, "C22:kmeans-repeat", "{}: another run gave other centroids", ctx);
    c.obs("kmeans_runs");
    // Assignment to a nearest centroid.
    for (size_t t = 0; t < 10; ++t) {
        size_t i = r.below(n);
        auto x = svs::find_nearest(data.get_datum(i), result);
        LD low = std::numeric_limits<LD>::max(), mine = low;
        if (!c.expect(x.id() < k, "C22:nearest", "{}: vector {} assigned to {}", ctx, i, x.id())) return;
        for (size_t q = 0; q < k; ++q) {
            LD s = 0;
            for (size_t j = 0; j < d; ++j) {
                LD y = as_double(m.row(i)[j]) - LD(result.get_datum(q)[j]);
                s += y * y;
            }
            low = std::min(low, s);
            if (q == x.id()) mine = s;
        }
        c.expect(mine <= low * (1 + 1e-5) + slack2 * 1e-3, "C22:nearest", "{}: vector {} assigned at {} although {} exists", ctx, i, double(mine), double(low));
        c.expect(std::fabs(x.distance() - mine) <= mine * 1e-5 + slack2 * 1e-3, "C22:nearest-distance", "{}: vector {} reported at {} instead of {}", ctx, i, x.distance(), double(mine));
    }
}
// One batch of assignments and adjustments against the running mean.
template <typename T> void kmeans_batch(Case& c) {
    auto& r = c.rng;
    size_t n = 1 + r.below(60), d = 1 + r.below(6), k = 1 + r.below(6);
    auto m = make_data<T>(r, n, d, r.one_of({Shape::Gauss, Shape::Cluster, Shape::Dups}));
    auto start = make_data<float>(r, k, d, Shape::Gauss);
    auto data = to_data<svs::data::SimpleData<T>>(m);
    auto centroids = to_data<svs::data::SimpleData<float>>(start);
    std::vector<int64_t> counts(k), old(k);
    for (auto& x : counts) x = r.below(30);
    for (auto& x : old) x = r.below(30);
    auto counts0 = counts, old0 = old;
    std::vector<size_t> assign(r.below(100), 12345);
    th::NativeThreadPool pool(1 + r.below(6));
    svs::lib::Timer timer;
    auto ctx = fmt::format("batch {} n={} d={} clusters={} threads={}", tname<T>(), n, d, k, pool.size());
    c.step("{}", ctx);
    c.distinct(fmt::format("{} {}", ctx, r()));
    auto before = to_data<svs::data::SimpleData<float>>(start);
    svs::process_batch(data, centroids, counts, old, assign, pool, timer);
    if (!c.expect(assign.size() == n, "C22:assignment", "{}: {} assignments", ctx, assign.size())) return;
    std::vector<int64_t> got(k);
    std::vector<std::vector<LD>> sum(k, std::vector<LD>(d, 0));
    for (size_t i = 0; i < n; ++i) {
        if (!c.expect(assign[i] < k, "C22:assignment", "{}: vector {} assigned to {}", ctx, i, assign[i])) return;
        LD low = std::numeric_limits<LD>::max(), mine = low;
        for (size_t q = 0; q < k; ++q) {
            LD s = 0;
            for (size_t j = 0; j < d; ++j) {
                LD y = as_double(m.row(i)[j]) - LD(before.get_datum(q)[j]);
                s += y * y;
            }
            low = std::min(low, s);
            if (q == assign[i]) mine = s;
        }
        c.expect(mine <= low * (1 + 1e-4) + 1e-4, "C22:assignment", "{}: vector {} assigned to {} at {} although {} exists", ctx, i, assign[i], double(mine), double(low));
        got[assign[i]]++;
        for (size_t j = 0; j < d; ++j) sum[assign[i]][j] += as_double(m.row(i)[j]);
    }
    for (size_t q = 0; q < k; ++q) {
        c.expect(counts[q] == counts0[q] + got[q] && old[q] == old0[q] + got[q], "C22:counts", "{}: cluster {} counts {} and {} after {} and {} plus {}", ctx, q, counts[q], old[q], counts0[q], old0[q], got[q]);
        for (size_t j = 0; j < d && got[q]; ++j) {
            LD want = (LD(before.get_datum(q)[j]) * counts0[q] + sum[q][j]) / (counts0[q] + got[q]);
            c.expect(std::fabs(want - centroids.get_datum(q)[j]) <= std::fabs(want) * 1e-4 + 1e-3 * (std::is_integral_v<T> ? 1 : 0.05), "C22:centroid", "{}: centroid {} moved to {} instead of {}", ctx, q, centroids.get_datum(q)[j], double(want));
        }
        for (size_t j = 0; j < d && !got[q]; ++j) c.expect(centroids.get_datum(q)[j] == before.get_datum(q)[j], "C22:centroid", "{}: centroid {} without vectors moved", ctx, q);
    }
    c.obs("kmeans_batches");
}
} // namespace

VH_SCENARIO(medioid_float, "C22 C13 C14", 150, 8000) {
    c.rng.chance(0.7) ? medioid<float, svs::data::SimpleData<float>>(c, "contiguous") : medioid<float, svs::data::BlockedData<float>>(c, "blocked");
}
VH_SCENARIO(medioid_other, "C22 C13 C14", 150, 8000) {
    switch (c.rng.below(4)) {
        case 0: return medioid<svs::Float16, svs::data::SimpleData<svs::Float16>>(c, "contiguous");
        case 1: return medioid<int8_t, svs::data::SimpleData<int8_t>>(c, "contiguous");
        case 2: return medioid<uint8_t, svs::data::BlockedData<uint8_t>>(c, "blocked");
        default: return medioid<uint8_t, svs::data::SimpleData<uint8_t>>(c, "contiguous");
    }
}
VH_SCENARIO(kmeans_train, "C22 C13 C14", 60, 4000) {
    switch (c.rng.below(4)) {
        case 0: return kmeans<svs::Float16>(c);
        case 1: return kmeans<int8_t>(c);
        case 2: return kmeans<uint8_t>(c);
        default: return kmeans<float>(c);
    }
}
VH_SCENARIO(kmeans_step, "C22 C13 C14", 80, 5000) {
    switch (c.rng.below(3)) {
        case 0: return kmeans_batch<svs::Float16>(c);
        case 1: return kmeans_batch<int8_t>(c);
        default: return kmeans_batch<float>(c);
    }
}
// More clusters than vectors cannot be chosen.
VH_SCENARIO(kmeans_refused, "C22 C14", 20, 200) {
    auto& r = c.rng;
    size_t n = r.below(6), k = n + 1 + r.below(4);
    svs::data::SimpleData<float> data(n, 3);
    for (size_t i = 0; i < n; ++i) data.set_datum(i, std::vector<float>{float(i), 1, 2});
    c.step("{} clusters of {} vectors", k, n);
    c.distinct(fmt::format("{} {}", n, k));
    if (r.chance(0.5)) c.expect(throws([&] { svs::train(svs::KMeansParameters{k, 10, 1}, data, 2); }), "C22:kmeans-impossible", "training {} clusters of {} vectors succeeded", k, n);
    else if (n > 0) c.expect(throws([&] { svs::index::inverted::randomly_select_centroids(n, k, 7); }), "C22:centroids-impossible", "{} centroids of {} vectors were chosen", k, n);
    c.obs("refusals");
}
