// Inverted indexes and their clusterings (C09), saved clusterings and primary indexes (C17).
#pragma once
#include "gen.h"
#include "rows.h"

#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/orchestrators/inverted.h"

namespace iv {
using namespace vh;
namespace inv = svs::index::inverted;
using svs::index::vamana::VamanaBuildParameters;
using svs::index::vamana::VamanaSearchParameters;
using Graph = svs::graphs::SimpleGraph<uint32_t>;
using Clustering = inv::Clustering<uint32_t>;

using Flat = std::map<uint32_t, std::vector<std::pair<uint32_t, float>>>;
inline Flat flatten(const Clustering& cl) {
    Flat f;
    for (auto& kv : cl) {
        auto& v = f[kv.first];
        for (auto& e : kv.second.elements()) v.push_back({e.id(), e.distance()});
    }
    return f;
}

template <typename T>
void check_clustering(
    Case& c, Metric m, const Mat<T>& data, const Clustering& cl, const std::vector<uint32_t>& centroids,
    size_t max_replicas, size_t max_size, const std::string& ctx
) {
    std::vector<size_t> uses(data.n);
    std::set<uint32_t> cs(centroids.begin(), centroids.end());
    c.expect(cl.size() == cs.size(), "C09:clusters", "{}: {} clusters for {} centroids", ctx, cl.size(), cs.size());
    size_t total = 0, biggest = 0, smallest = NONE, empty = 0;
    for (auto& kv : cl) {
        if (!c.expect(kv.first == kv.second.centroid() && cs.count(kv.first), "C09:centroid", "{}: cluster {} of centroid {}", ctx, kv.first, kv.second.centroid())) return;
        std::set<uint32_t> ids;
        auto& el = kv.second.elements();
        total += 1 + el.size();
        biggest = std::max(biggest, el.size());
        smallest = std::min(smallest, el.size());
        empty += el.empty();
        double prev = 0;
        for (size_t i = 0; i < el.size(); ++i) {
            uint32_t id = el[i].id();
            if (!c.expect(id < data.n && !cs.count(id), "C09:leaf", "{}: cluster {} holds {}", ctx, kv.first, id)) return;
            if (!c.expect(ids.insert(id).second, "C09:leaf-twice", "{}: cluster {} holds {} twice", ctx, kv.first, id)) return;
            auto e = exact(m, data.row(id), data.row(kv.first), data.d);
            if (!c.expect(std::fabs(el[i].distance() - e.value) <= tol(e, data.d), "C09:leaf-distance", "{}: {} in cluster {} at {}, true {}", ctx, id, kv.first, el[i].distance(), e.value)) return;
            if (!c.expect(i == 0 || !better(m, el[i].distance(), prev), "C09:leaf-order", "{}: cluster {} slot {}", ctx, kv.first, i)) return;
            prev = el[i].distance();
            ++uses[id];
        }
        if (max_size) c.expect(el.size() <= max_size, "C09:cluster-size", "{}: cluster {} has {} leaves, limit {}", ctx, kv.first, el.size(), max_size);
    }
    for (size_t i = 0; i < data.n; ++i) {
        if (cs.count(i)) continue;
        if (!c.expect(uses[i] >= 1, "C09:lost", "{}: vector {} is in no cluster", ctx, i)) return;
        if (!c.expect(uses[i] <= max_replicas + 1, "C09:replicas", "{}: vector {} is in {} clusters", ctx, i, uses[i])) return;
    }
    // Derived views of the same clustering.
    auto h = cl.leaf_histogram();
    auto packed = cl.packed_leaf_translation();
    std::set<uint32_t> locals;
    size_t leaves = 0;
    for (size_t i = 0; i < data.n; ++i) {
        if (!uses[i]) {
            c.expect(!h.contains(i) && !packed.contains(i), "C09:histogram", "{}: {} counted", ctx, i);
            continue;
        }
        ++leaves;
        if (!c.expect(h.contains(i) && h.at(i) == uses[i], "C09:histogram", "{}: {}", ctx, i)) return;
        if (!c.expect(packed.contains(i) && locals.insert(packed.at(i)).second && packed.at(i) < data.n, "C09:packing", "{}: {}", ctx, i)) return;
    }
    c.expect(h.size() == leaves && packed.size() == leaves && (locals.empty() || *locals.rbegin() + 1 == leaves), "C09:packing", "{}: {} leaves packed as {}", ctx, leaves, packed.size());
    c.expect(cl.total_size() == total, "C09:total-size", "{}: {} counted {}", ctx, cl.total_size(), total);
    auto comp = cl.complement(data.n);
    c.expect(comp.size() == data.n - cs.size() && std::none_of(comp.begin(), comp.end(), [&](auto i) { return cs.count(i) > 0; }), "C09:complement", "{}: {}", ctx, comp.size());
    auto sorted = cl.sorted_centroids();
    c.expect(std::equal(sorted.begin(), sorted.end(), cs.begin(), cs.end()), "C09:sorted-centroids", "{}", ctx);
    auto st = cl.statistics();
    c.expect(st.num_clusters_ == cs.size() && st.num_leaves_ == total - cs.size() && st.max_size_ == biggest && (cs.empty() || st.min_size_ == smallest) && st.empty_clusters_ == empty, "C09:statistics", "{}: {}", ctx, st.report());
    c.obs("clusterings_checked");
    c.obs("assignments_checked", total - cs.size());
}

// Cluster sizes limited afterwards: nothing lost, only the farthest copies dropped.
template <typename Dist> void check_reduce(Case& c, Metric m, Clustering cl, size_t n, const std::string& ctx) {
    auto& r = c.rng;
    auto before = flatten(cl);
    std::map<uint32_t, size_t> uses;
    size_t biggest = 0;
    for (auto& [k, v] : before) {
        biggest = std::max(biggest, v.size());
        for (auto& e : v) ++uses[e.first];
    }
    size_t limit = r.chance(0.3) ? biggest : 1 + r.below(biggest + 2);
    auto cmp = svs::distance::comparator(Dist{});
    auto dry = cl;
    bool could = dry.reduce_maxsize(limit, cmp, true);
    c.expect(flatten(dry) == before, "C09:dry-run", "{}: a dry run changed the clustering", ctx);
    bool did = true;
    auto red = cl;
    try {
        did = red.reduce_maxsize(limit, cmp);
    } catch (const std::exception&) {
        did = false;
    }
    c.expect(could == did, "C09:dry-run", "{}: dry run says {} but {} for limit {}", ctx, could, did, limit);
    if (limit >= biggest) c.expect(did && flatten(red) == before, "C09:reduce", "{}: limit {} changed clusters of at most {}", ctx, limit, biggest);
    if (!did) {
        c.obs("irreducible");
        return;
    }
    std::map<uint32_t, size_t> after;
    for (auto& [k, v] : flatten(red)) {
        c.expect(v.size() == std::min(limit, before[k].size()), "C09:reduce", "{}: cluster {} went from {} to {} for limit {}", ctx, k, before[k].size(), v.size(), limit);
        std::map<uint32_t, float> had(before[k].begin(), before[k].end());
        for (auto& e : v) {
            c.expect(had.count(e.first) && had[e.first] == e.second, "C09:reduce", "{}: cluster {} gained {}", ctx, k, e.first);
            ++after[e.first];
        }
    }
    for (auto& [id, u] : uses) c.expect(after[id] >= 1, "C09:lost", "{}: reducing to {} lost {}", ctx, limit, id);
    c.obs("reductions");
}

template <typename T> bool same_answers(const Res& a, const Res& b, size_t nq, size_t k, size_t* q, size_t* s) {
    for (size_t i = 0; i < nq; ++i)
        for (size_t j = 0; j < k; ++j)
            if (a.ids(i)[j] != b.ids(i)[j] || (a.ids(i)[j] != NONE && a.ds(i)[j] != b.ds(i)[j])) {
                *q = i, *s = j;
                return false;
            }
    return true;
}

struct Setup {
    size_t n, d;
    Shape shape;
    inv::ClusteringParameters cp;
    VamanaBuildParameters vp;
};
template <typename T, typename Dist> Mat<T> make(Case& c, Setup& s) {
    auto& r = c.rng;
    constexpr Metric m = metric_of<Dist>();
    s.n = 10 + r.below(r.chance(0.3) ? 700 : 150);
    s.d = 1 + r.below(r.chance(0.2) ? 60 : 14);
    s.shape = r.one_of({Shape::Gauss, Shape::Cluster, Shape::Uniform, Shape::Grid, Shape::Dups});
    auto data = make_data<T>(r, s.n, s.d, s.shape);
    if (m == Metric::Cos) no_zeros(data);
    if (m == Metric::IP) // inner products of one sign, so that a large bound covers everything
        for (auto& x : data.v) x = from_double<T>(std::fabs(as_double(x)) + (std::is_integral_v<T> ? 1 : 0.05));
    s.cp = inv::ClusteringParameters();
    double pct = r.one_of({0.05, 0.1, 0.2, 0.5, 1.0});
    if (pct * s.n < 1.5) pct = 0.5;
    s.cp.percent_centroids(svs::lib::Percent(pct));
    s.cp.epsilon(r.one_of({0.0, 0.05, 0.5, 10.0}));
    s.cp.max_replicas(r.one_of({size_t(0), size_t(1), size_t(2), size_t(8), size_t(20)}));
    s.cp.seed(r());
    s.cp.batchsize(r.one_of({size_t(1 + r.below(40)), size_t(100), size_t(100000)}));
    s.cp.num_intermediate_results(1 + r.below(20));
    s.cp.search_window_size(s.cp.num_intermediate_results_ + r.below(40));
    s.cp.refinement_alpha(r.one_of({1.0, 1.2, 0.8}));
    size_t deg = 2 + r.below(31);
    s.vp = VamanaBuildParameters(m == Metric::L2 ? 1.2f : 0.95f, deg, 20 + r.below(60), 100 + r.below(200), 1 + r.below(deg), r.chance(0.5));
    return data;
}
template <typename T, typename Dist> std::string describe(const Setup& s, size_t threads) {
    return fmt::format("{} {} {} n={} d={} pct={} eps={} replicas={} batch={} inter={} window={} alpha={} threads={}", tname<T>(), metric_name(metric_of<Dist>()), shape_name(s.shape), s.n, s.d, s.cp.percent_centroids_.value(), s.cp.epsilon_, s.cp.max_replicas_, s.cp.batchsize_, s.cp.num_intermediate_results_, s.cp.search_window_size_, s.cp.refinement_alpha_, threads);
}

// Clustering around a primary index whose graph is complete: every centroid is found.
template <typename T, typename Dist> void clustering(Case& c) {
    auto& r = c.rng;
    constexpr Metric m = metric_of<Dist>();
    Setup s;
    auto mat = make<T, Dist>(c, s);
    auto data = to_data<svs::data::SimpleData<T>>(mat);
    size_t threads = 1 + r.below(4);
    auto ctx = describe<T, Dist>(s, threads);
    c.step("{}", ctx);
    size_t nc = std::min<size_t>(inv::detail::get_number_of_centroids(s.n, s.cp.percent_centroids_), 60);
    nc = std::max<size_t>(nc, 1);
    auto ids = inv::randomly_select_centroids<uint32_t>(s.n, nc, r());
    c.expect(ids.size() == nc && std::is_sorted(ids.begin(), ids.end()) && std::adjacent_find(ids.begin(), ids.end()) == ids.end() && ids.back() < s.n, "C09:random-centroids", "{}: asked {} got {}", ctx, nc, ids.size());
    std::vector<uint32_t> centroids(ids.begin(), ids.end());
    Graph g(nc, std::max<size_t>(nc, 2) - 1);
    svs::data::SimpleData<T> primary_data(nc, s.d);
    for (size_t i = 0; i < nc; ++i) {
        std::vector<uint32_t> nb;
        for (size_t j = 0; j < nc; ++j)
            if (j != i) nb.push_back(j);
        g.replace_node(i, nb);
        primary_data.set_datum(i, mat.span(centroids[i]));
    }
    svs::index::vamana::VamanaIndex primary(std::move(g), std::move(primary_data), uint32_t(r.below(nc)), Dist{}, threads);
    s.cp.search_window_size(std::max(nc + 1, s.cp.num_intermediate_results_));
    auto cl = inv::cluster_with(data, std::span<const uint32_t>(centroids), s.cp, primary);
    check_clustering(c, m, mat, cl, centroids, s.cp.max_replicas_, 0, ctx);
    // The nearest centroid is always used; others only within the bound.
    auto flat = flatten(cl);
    std::map<uint32_t, std::vector<double>> where;
    for (auto& [k, v] : flat)
        for (auto& e : v) where[e.first].push_back(exact(m, mat.row(e.first), mat.row(k), s.d).value);
    for (auto& [id, ds] : where) {
        double best = 0, sc = 0;
        bool first = true;
        for (auto k : centroids) {
            auto e = exact(m, mat.row(id), mat.row(k), s.d);
            if (first || better(m, e.value, best)) best = e.value;
            sc = std::max(sc, e.scale);
            first = false;
        }
        double slack = 2 * tol({best, sc}, s.d);
        bool near = false;
        double bound = m == Metric::L2 ? best * (1 + s.cp.epsilon_) : best / (1 + s.cp.epsilon_);
        for (auto d : ds) {
            near |= std::fabs(d - best) <= slack;
            bool in = m == Metric::L2 ? d <= bound + slack * (1 + s.cp.epsilon_) : d >= bound - slack;
            if (!c.expect(in, "C09:beyond-bound", "{}: vector {} assigned at {}, nearest {} bound {}", ctx, id, d, best, bound)) return;
        }
        if (!c.expect(near, "C09:not-nearest", "{}: vector {} misses its nearest centroid at {}", ctx, id, best)) return;
    }
    check_reduce<Dist>(c, m, cl, s.n, ctx);
    // The limit applied by the clustering itself.
    {
        size_t biggest = 0;
        for (auto& [k, v] : flat) biggest = std::max(biggest, v.size());
        auto cp = s.cp;
        cp.max_cluster_size(std::max<size_t>(1, biggest - r.below(biggest / 2 + 1)));
        try {
            auto cl2 = inv::cluster_with(data, std::span<const uint32_t>(centroids), cp, primary);
            check_clustering(c, m, mat, cl2, centroids, cp.max_replicas_, cp.max_cluster_size_, ctx + " limited");
        } catch (const std::exception& e) {
            auto copy = cl;
            c.expect(!copy.reduce_maxsize(cp.max_cluster_size_, svs::distance::comparator(Dist{}), true), "C09:limit-refused", "{}: limit {} refused: {}", ctx, cp.max_cluster_size_, e.what());
            c.obs("limits_refused");
        }
    }
    // Thread count and batch size make no difference.
    {
        auto cp = s.cp;
        cp.batchsize(1 + r.below(s.n + 3));
        primary.set_num_threads(1 + r.below(4));
        auto cl2 = inv::cluster_with(data, std::span<const uint32_t>(centroids), cp, primary);
        c.expect(flatten(cl2).size() == flat.size() && [&] {
            auto a = flatten(cl2);
            for (auto& [k, v] : a) {
                auto w = flat[k];
                std::sort(v.begin(), v.end());
                std::sort(w.begin(), w.end());
                if (v != w) return false;
            }
            return true;
        }(), "C09:batching", "{}: another batch size or thread count gives another clustering", ctx);
    }
    // Centroids outside of the data are refused.
    {
        auto bad = centroids;
        bad.back() = s.n + r.below(3);
        c.expect(throws([&] { inv::cluster_with(data, std::span<const uint32_t>(bad), s.cp, primary); }), "C09:bad-centroid", "{}: centroid {} of {} accepted", ctx, bad.back(), s.n);
    }
    // Saved and reloaded.
    {
        auto dir = c.scratch() / "cl";
        svs::lib::save_to_disk(cl, dir);
        auto back = svs::lib::load_from_disk<Clustering>(dir);
        c.expect(back == cl && flatten(back) == flat, "C17:clustering", "{}: reloaded clustering differs", ctx);
        c.expect(throws([&] { svs::lib::load_from_disk<inv::Clustering<uint64_t>>(dir); }), "C18:clustering-type", "{}: loaded with another integer type", ctx);
        std::filesystem::remove_all(dir);
    }
    c.distinct(fmt::format("{}|{}", ctx, c.index()));
    c.sample("{}: {} centroids", ctx, nc);
}

template <typename Q, typename T, typename Dist, typename Strategy> void index(Case& c) {
    auto& r = c.rng;
    constexpr Metric m = metric_of<Dist>();
    Setup s;
    auto mat = make<T, Dist>(c, s);
    size_t threads = 1 + r.below(4);
    auto ctx = describe<T, Dist>(s, threads);
    c.step("{}", ctx);
    std::optional<Clustering> seen;
    auto op = [&](const Clustering& cl) { seen = cl; };
    auto picker = inv::PickRandomly();
    auto index = inv::auto_build(inv::InvertedBuildParameters(s.cp, s.vp), to_data<svs::data::SimpleData<T>>(mat), Dist{}, threads, Strategy{}, picker, op);
    if (!c.expect(seen.has_value(), "C09:post-op", "{}: clustering never shown", ctx)) return;
    auto sorted = seen->sorted_centroids();
    std::vector<uint32_t> centroids(sorted.begin(), sorted.end());
    c.expect(centroids.size() == inv::detail::get_number_of_centroids(s.n, s.cp.percent_centroids_), "C09:centroid-count", "{}: {} centroids", ctx, centroids.size());
    check_clustering(c, m, mat, *seen, centroids, s.cp.max_replicas_, s.cp.max_cluster_size_, ctx);
    if (c.failed) return;

    size_t nq = 1 + r.below(10), k = 1 + r.below(r.chance(0.2) ? s.n + 5 : 12);
    Mat<Q> q(nq, s.d);
    for (size_t i = 0; i < nq; ++i) {
        size_t src = r.below(s.n);
        double u = std::is_integral_v<T> ? 3 : 0.05;
        for (size_t j = 0; j < s.d; ++j) q.row(i)[j] = from_double<Q>(as_double(mat.row(src)[j]) + (r.chance(0.3) ? 0.0 : m == Metric::IP ? u * std::fabs(r.normal()) : u * r.normal()));
    }
    auto look = std::function<const T*(size_t)>([&](size_t id) { return id < mat.n ? mat.row(id) : nullptr; });
    auto search = [&](auto& ix, const inv::InvertedSearchParameters& p) {
        auto x = fresh(nq, k);
        ix.search(x.r.view(), q.cview(), p);
        return x;
    };
    // Whatever the settings: truthful rows.
    for (int rep = 0; rep < 3; ++rep) {
        size_t w = 1 + r.below(centroids.size() + 5);
        inv::InvertedSearchParameters p(VamanaSearchParameters().buffer_config(svs::index::vamana::SearchBufferConfig(w, w + r.below(5))), r.one_of({0.0, 0.1, 1.0, 10.0, 1e9}));
        auto cx = fmt::format("{} nq={} k={} window={} eps={}", ctx, nq, k, w, p.refinement_epsilon_);
        c.step("{}", cx);
        auto x = search(index, p);
        for (size_t i = 0; i < nq; ++i) check_row(c, m, mat, q.row(i), x.ids(i), x.ds(i), k, NONE, cx, "C09", look);
        size_t a, b;
        if (r.chance(0.5)) {
            index.set_num_threads(1 + r.below(4));
            auto y = search(index, p);
            c.expect(same_answers<T>(x, y, nq, k, &a, &b), "C09:threads", "{}: row {} slot {} depends on the thread count", cx, a, b);
        }
        if (r.chance(0.5)) {
            index.set_search_parameters(p);
            c.expect(index.get_search_parameters() == p, "C09:search-parameters", "{}: parameters changed", cx);
            auto y = fresh(nq, k);
            svs::index::search_batch_into(index, y.r.view(), q.cview());
            c.expect(same_answers<T>(x, y, nq, k, &a, &b), "C09:default-parameters", "{}: row {} slot {} differs when the parameters are installed", cx, a, b);
        }
    }
    // Everything visited: the exact answer. What the primary search can reach is asked of it.
    inv::InvertedSearchParameters all(VamanaSearchParameters().buffer_config(svs::index::vamana::SearchBufferConfig(centroids.size() + 2)), 1e12);
    auto dir = c.scratch() / "pri";
    std::filesystem::create_directories(dir);
    index.save_primary_index(dir / "config", dir / "graph", dir / "data");
    auto graph = Graph::load(dir / "graph");
    auto primary = svs::index::vamana::auto_assemble(dir / "config", SVS_LAZY(Graph::load(dir / "graph")), SVS_LAZY(svs::data::SimpleData<T>::load(dir / "data")), Dist{}, 1);
    c.expect(graph.n_nodes() == centroids.size() && primary.size() == centroids.size(), "C17:primary", "{}: primary index of {}", ctx, primary.size());
    std::vector<bool> reach(centroids.size());
    {
        std::vector<size_t> todo{0};
        // The entry point: the vertex a search with window 1 of an unreachable target starts at
        // is not exposed, so reachability is measured by a full-window search.
        auto z = fresh(1, centroids.size());
        Mat<Q> one(1, s.d);
        std::copy(q.row(0), q.row(0) + s.d, one.row(0));
        primary.search(z.r.view(), one.cview(), all.primary_parameters_);
        for (size_t j = 0; j < centroids.size(); ++j)
            if (z.ids(0)[j] != NONE) reach[z.ids(0)[j]] = true;
    }
    std::set<size_t> visible;
    for (size_t i = 0; i < centroids.size(); ++i) {
        if (!reach[i]) continue;
        visible.insert(centroids[i]);
        for (auto& e : seen->at(centroids[i]).elements()) visible.insert(e.id());
    }
    c.obs("fully_reachable", visible.size() == s.n);
    auto x = search(index, all);
    for (size_t i = 0; i < nq; ++i) {
        bool at_centroid = false;
        for (auto id : centroids) at_centroid |= m == Metric::L2 && exact(m, q.row(i), mat.row(id), s.d).value == 0;
        auto want = rank_all(m, q.row(i), mat, [&](size_t id) { return visible.count(id) > 0; });
        check_row(c, m, mat, q.row(i), x.ids(i), x.ds(i), k, at_centroid ? NONE : want.size(), ctx + " full", "C09", look);
        if (at_centroid) continue; // a zero distance leaves no room for the relative bound
        double sc = 0;
        for (auto& w : want) sc = std::max(sc, w.scale);
        for (size_t j = 0; j < k && j < want.size(); ++j)
            if (!c.expect(std::fabs(x.ds(i)[j] - want[j].score) <= 2 * tol({want[j].score, sc}, s.d), "C09:full-search", "{}: query {} slot {}: id {} at {}, exact {} at {}", ctx, i, j, x.ids(i)[j], x.ds(i)[j], want[j].id, want[j].score)) break;
        c.obs("full_searches");
    }
    // Reassembled from the saved clustering and primary index.
    if (r.chance(0.6)) {
        svs::lib::save_to_disk(*seen, dir / "clustering");
        auto re = inv::assemble_from_clustering(dir / "clustering", to_data<svs::data::SimpleData<T>>(mat), Dist{}, Strategy{}, dir / "config", dir / "graph", 1 + r.below(3));
        auto y = search(re, all);
        size_t a = 0, b = 0;
        c.expect(same_answers<T>(x, y, nq, k, &a, &b), "C17:inverted-answers", "{}: row {} slot {} differs after reassembly", ctx, a, b);
        auto fac = svs::Inverted::assemble_from_clustering<Q>(dir / "clustering", to_data<svs::data::SimpleData<T>>(mat), Dist{}, dir / "config", dir / "graph", 1 + r.below(3), Strategy{});
        auto z = fresh(nq, k);
        fac.search(z.r.view(), q.cview(), all);
        c.expect(same_answers<T>(x, z, nq, k, &a, &b), "C23:inverted-answers", "{}: row {} slot {} differs through the facade", ctx, a, b);
        fac.set_search_parameters(all);
        c.expect(fac.get_search_parameters() == all && fac.dimensions() == s.d, "C23:inverted-parameters", "{}: facade parameters", ctx);
        auto z2 = Res{fac.search(q.cview(), k)};
        c.expect(same_answers<T>(x, z2, nq, k, &a, &b), "C23:inverted-answers", "{}: row {} slot {} differs through the facade defaults", ctx, a, b);
        c.obs("reassembled");
    }
    c.distinct(fmt::format("{}|{}", ctx, c.index()));
    c.sample("{}: {} centroids, {} visible", ctx, centroids.size(), visible.size());
}
} // namespace iv
#define IV(tag, Q, T, Dist, D)                                                                        \
    VH_SCENARIO(cluster_##tag, "C09 C17 C13 C14", 60 / D, 2500 / D) { iv::clustering<T, Dist>(c); }            \
    VH_SCENARIO(inverted_##tag, "C09 C17 C23 C13 C14", 40 / D, 1500 / D) {                                     \
        if (c.rng.chance(0.5)) iv::index<Q, T, Dist, svs::index::inverted::SparseStrategy>(c);         \
        else iv::index<Q, T, Dist, svs::index::inverted::DenseStrategy>(c);                            \
    }
