// Static Vamana: search truthfulness (C01), execution invariance (C02), best-first
// exactness and accuracy (C03) and build structure (C04).
#pragma once
#include "gen.h"
#include "rows.h"

#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/index.h"
#include "svs/orchestrators/vamana.h"

namespace st {
using namespace vh;
using svs::index::vamana::SearchBufferConfig;
using svs::index::vamana::VamanaBuildParameters;
using svs::index::vamana::VamanaSearchParameters;
using Graph = svs::graphs::SimpleGraph<uint32_t>;

template <typename T, typename Dist>
using Index = svs::index::vamana::VamanaIndex<Graph, svs::data::SimpleData<T>, Dist>;

using Adj = std::vector<std::vector<uint32_t>>;

inline Adj random_adj(Rng& r, size_t n, size_t deg, int kind) {
    Adj adj(n);
    for (size_t i = 0; i < n; ++i) {
        std::set<uint32_t> s;
        size_t d = r.below(deg + 1);
        if (kind == 1) d = deg;                       // dense
        if (kind == 2) d = std::min<size_t>(d, 1);    // chains and islands
        for (size_t t = 0; t < d * 2 && s.size() < d; ++t) {
            uint32_t j = kind == 3 ? uint32_t((i + 1 + r.below(deg + 2)) % n)
                                   : uint32_t(r.below(n));
            if (j != i) s.insert(j);
        }
        adj[i].assign(s.begin(), s.end());
        r.shuffle(adj[i]);
    }
    if (kind == 3) {
        for (size_t i = 0; i < n; ++i) { // a ring: all reachable
            uint32_t j = (i + 1) % n;
            if (j != i && std::find(adj[i].begin(), adj[i].end(), j) == adj[i].end()) {
                if (adj[i].size() >= deg) adj[i].pop_back();
                adj[i].push_back(j);
            }
        }
    }
    return adj;
}
inline Graph to_graph(const Adj& adj, size_t deg) {
    Graph g(adj.size(), std::max<size_t>(deg, 1));
    for (size_t i = 0; i < adj.size(); ++i) {
        g.replace_node(i, adj[i]);
    }
    return g;
}
inline std::vector<bool> reachable(const Adj& adj, size_t ep) {
    std::vector<bool> seen(adj.size());
    std::vector<size_t> todo{ep};
    seen[ep] = true;
    while (!todo.empty()) {
        auto v = todo.back();
        todo.pop_back();
        for (auto w : adj[v]) {
            if (!seen[w]) {
                seen[w] = true;
                todo.push_back(w);
            }
        }
    }
    return seen;
}

// Distances as the library evaluates them (their truth is checked separately).
template <typename Q, typename T, typename Dist>
std::vector<float> lib_distances(const Dist& dist, const Mat<T>& data, const Q* q) {
    auto d = svs::threads::shallow_copy(dist);
    auto query = std::span<const Q>(q, data.d);
    svs::distance::maybe_fix_argument(d, query);
    std::vector<float> out(data.n);
    for (size_t i = 0; i < data.n; ++i) {
        out[i] = svs::distance::compute(d, query, data.span(i));
    }
    return out;
}

// Textbook best-first search with a window and a capacity.
inline std::vector<std::pair<float, uint32_t>> reference_search(
    const Adj& adj, const std::vector<float>& dist, Metric m, size_t ep, size_t window,
    size_t cap, size_t* expansions
) {
    struct E {
        float d;
        uint32_t id;
        bool done;
    };
    std::vector<E> buf{{dist[ep], uint32_t(ep), false}};
    std::vector<bool> seen(adj.size());
    seen[ep] = true;
    while (true) {
        size_t lim = std::min(window, buf.size()), at = lim;
        for (size_t i = 0; i < lim; ++i) {
            if (!buf[i].done) {
                at = i;
                break;
            }
        }
        if (at == lim) break;
        buf[at].done = true;
        ++*expansions;
        auto v = buf[at].id;
        for (auto w : adj[v]) {
            if (seen[w]) continue;
            seen[w] = true;
            E e{dist[w], w, false};
            auto it = std::find_if(buf.begin(), buf.end(), [&](auto& x) {
                return better(m, e.d, x.d);
            });
            buf.insert(it, e);
            if (buf.size() > cap) buf.pop_back();
        }
    }
    std::vector<std::pair<float, uint32_t>> r;
    for (auto& e : buf) r.push_back({e.d, e.id});
    return r;
}

template <typename T> Shape pick_shape(Rng& r, bool ties_ok, Metric m) {
    if (m == Metric::Cos) {
        return r.one_of({Shape::Gauss, Shape::Cluster, Shape::Scaled, Shape::Uniform});
    }
    if (!ties_ok) {
        return r.one_of({Shape::Gauss, Shape::Uniform, Shape::Cluster});
    }
    return r.one_of(
        {Shape::Gauss, Shape::Uniform, Shape::Cluster, Shape::Grid, Shape::Dups,
         Shape::Constant, Shape::Line, Shape::Scaled}
    );
}

inline VamanaSearchParameters
sp_of(size_t w, size_t cap, bool visited, size_t look = 4, size_t step = 1) {
    return VamanaSearchParameters(SearchBufferConfig(w, cap), visited, look, step);
}

//// Search over hand-made graphs.
template <typename Q, typename T, typename Dist> void hand_graph(Case& c) {
    auto& r = c.rng;
    constexpr Metric m = metric_of<Dist>();
    bool big = r.chance(0.15);
    size_t n = big ? 100 + r.below(900) : 1 + r.below(60);
    size_t d = 1 + r.below(r.chance(0.3) ? 100 : 24);
    size_t deg = 1 + r.below(r.chance(0.5) ? 6 : 24);
    int kind = r.below(4);
    auto shape = pick_shape<T>(r, r.chance(0.4), m);
    auto data = make_data<T>(r, n, d, shape);
    if (m == Metric::Cos) no_zeros(data);
    auto adj = random_adj(r, n, deg, kind);
    size_t ep = r.below(n);
    size_t nthreads = 1 + r.below(3);
    size_t nq = 1 + r.below(5);
    auto queries = make_data<Q>(r, nq, d, shape == Shape::Constant ? Shape::Gauss : shape);
    if (m == Metric::Cos) no_zeros(queries);
    if (r.chance(0.3)) { // a query that equals a stored vector
        for (size_t j = 0; j < d; ++j) {
            queries.row(0)[j] = from_double<Q>(as_double(data.row(r.below(n))[j]));
        }
    }
    Dist dist{};
    Index<T, Dist> index(to_graph(adj, deg), to_data<svs::data::SimpleData<T>>(data), uint32_t(ep), dist, nthreads);
    auto reach = reachable(adj, ep);
    size_t nreach = std::count(reach.begin(), reach.end(), true);
    for (int round = 0; round < 3; ++round) {
        size_t k = 1 + r.below(r.chance(0.3) ? n + 6 : std::min<size_t>(n, 12));
        size_t w = 1 + r.below(r.chance(0.3) ? 2 * n + 4 : 20);
        if (round == 0) w = n + r.below(5); // full window
        size_t cap = w + (r.chance(0.4) ? r.below(12) : 0);
        bool visited = r.chance(0.5);
        auto sp = sp_of(w, cap, visited, r.below(10), r.below(5));
        c.step("hand n={} d={} k={} w={} cap={} nq={}", n, d, k, w, cap, nq);
        auto res = fresh(nq, k);
        index.search(res.r.view(), queries.view(), sp);
        for (size_t i = 0; i < nq; ++i) {
            auto ctx = fmt::format(
                "{}/{} {} {} n={} d={} deg={} kind={} ep={} k={} w={} cap={} vis={} q={}",
                tname<Q>(), tname<T>(), metric_name(m), shape_name(shape), n, d, deg, kind, ep, k,
                w, cap, visited, i
            );
            size_t ew = w, ecap = cap;
            if (cap < k) ew = ecap = k;
            size_t expected = ew >= n ? nreach : NONE;
            check_row(c, m, data, queries.row(i), res.ids(i), res.ds(i), k, expected, ctx);
            if (c.failed) return;
            // The reference needs an unambiguous order.
            auto ld = lib_distances(dist, data, queries.row(i));
            std::set<float> uniq;
            bool ties = false;
            for (size_t v = 0; v < n; ++v) {
                if (reach[v] && !uniq.insert(ld[v]).second) ties = true;
            }
            size_t expansions = 0;
            auto ref = reference_search(adj, ld, m, ep, ew, ecap, &expansions);
            if (ties) {
                c.obs("rows_with_ties");
                if (ew >= n) { // the sorted distances are still determined
                    for (size_t j = 0; j < std::min(k, ref.size()); ++j) {
                        if (!c.expect(
                                ld[res.ids(i)[j]] == ref[j].first, "C03:full-window-ties",
                                "{}: slot {} distance {} reference {}", ctx, j,
                                ld[res.ids(i)[j]], ref[j].first
                            )) {
                            return;
                        }
                    }
                }
                continue;
            }
            c.obs("reference_rows");
            c.obs("reference_expansions", expansions);
            for (size_t j = 0; j < k; ++j) {
                size_t want = j < ref.size() ? ref[j].second : NONE;
                if (res.ids(i)[j] != want) {
                    c.fail(
                        "C03:differs-from-best-first",
                        "{}: slot {} id {} but best-first search gives {} ({} reachable)", ctx, j,
                        res.ids(i)[j], want, nreach
                    );
                    return;
                }
            }
            if (ew >= n) {
                // exactness by the independent exact ranking
                auto rank = rank_all<Q, T>(m, queries.row(i), data, [&](size_t v) { return reach[v]; });
                for (size_t j = 0; j < std::min(k, rank.size()); ++j) {
                    auto e = exact(m, queries.row(i), data.row(res.ids(i)[j]), d);
                    if (std::fabs(e.value - rank[j].score) > 2 * (tol(e, d) + tol({0, rank[j].scale}, d))) {
                        c.fail("C03:not-nearest", "{}: slot {} score {} exact {}", ctx, j, e.value, rank[j].score);
                        return;
                    }
                }
                c.obs("full_window_rows");
            }
            if (expansions > 1) {
                c.distinct(fmt::format("{}|{}|{}|{}|{}|{}", ctx, ld[ep], nreach, expansions, round, c.index()));
            }
        }
    }
    c.sample(
        "{}/{} {} n={} d={} deg={} kind={} reachable={} shape={}", tname<Q>(), tname<T>(),
        metric_name(m), n, d, deg, kind, nreach, shape_name(shape)
    );
}

template <typename D> float metric_alpha(Rng& r) {
    if constexpr (metric_of<D>() == Metric::L2) {
        return r.one_of({1.0f, 1.1f, 1.2f, 1.5f});
    } else {
        return r.one_of({1.0f, 0.95f, 0.9f});
    }
}

template <typename G> Adj adj_of(const G& g) {
    Adj adj(g.n_nodes());
    for (size_t i = 0; i < adj.size(); ++i) {
        auto l = g.get_node(i);
        adj[i].assign(l.begin(), l.end());
    }
    return adj;
}
inline void check_structure(
    Case& c, const Adj& adj, size_t n, size_t maxdeg, const std::string& ctx
) {
    c.expect(adj.size() == n, "C04:vertex-count", "{}: {} vertices for {} vectors", ctx, adj.size(), n);
    for (size_t i = 0; i < adj.size(); ++i) {
        std::set<uint32_t> s;
        if (adj[i].size() > maxdeg) {
            c.fail("C04:degree", "{}: vertex {} degree {} > {}", ctx, i, adj[i].size(), maxdeg);
            return;
        }
        for (auto j : adj[i]) {
            if (j >= n) {
                c.fail("C04:out-of-range", "{}: edge {}->{} of {}", ctx, i, j, n);
                return;
            }
            if (j == i) {
                c.fail("C04:self-loop", "{}: vertex {}", ctx, i);
                return;
            }
            if (!s.insert(j).second) {
                c.fail("C04:duplicate-edge", "{}: edge {}->{} twice", ctx, i, j);
                return;
            }
        }
        c.obs("adjacency_lists_checked");
        c.obs("edges_checked", adj[i].size());
    }
}

//// Build and inspect through the saved form as well as the accessors the builder leaves.
// The graph is given to the builder by us, so that its adjacency can be read afterwards.
template <typename Q, typename T, typename Dist> void build(Case& c) {
    auto& r = c.rng;
    constexpr Metric m = metric_of<Dist>();
    bool ordinary = c.index() % 3 == 0; // ordinary parameters, benign data: accuracy too
    size_t n = ordinary ? 200 + r.below(c.thorough() ? 2500 : 500)
                        : (r.chance(0.3) ? 1 + r.below(5) : 2 + r.below(250));
    size_t d = ordinary ? 4 + r.below(12) : 1 + r.below(40);
    auto shape = ordinary ? Shape::Gauss : pick_shape<T>(r, true, m);
    auto data = make_data<T>(r, n, d, shape);
    if (m == Metric::Cos) no_zeros(data);
    if (!ordinary && m == Metric::L2 && r.chance(0.3)) {
        // distances from tiny to large
        for (auto& x : data.v) x = from_double<T>(as_double(x) * 0.01);
    }
    size_t maxdeg = ordinary ? 24 + r.below(16) : 1 + r.below(r.chance(0.5) ? 6 : 40);
    size_t window = ordinary ? 50 + r.below(40) : 1 + r.below(60);
    size_t pool = ordinary ? 100 + r.below(100) : 1 + r.below(120);
    size_t prune_to = ordinary ? maxdeg - r.below(3) : 1 + r.below(maxdeg);
    float alpha = metric_alpha<Dist>(r);
    if (ordinary) alpha = m == Metric::L2 ? 1.2f : 0.95f;
    size_t nthreads = 1 + r.below(6);
    VamanaBuildParameters p(alpha, maxdeg, window, pool, prune_to, r.chance(0.6));
    auto ctx = fmt::format(
        "{} {} {} n={} d={} R={} W={} pool={} prune={} alpha={} hist={} threads={}", tname<T>(),
        metric_name(m), shape_name(shape), n, d, maxdeg, window, pool, prune_to, alpha,
        p.use_full_search_history, nthreads
    );
    c.step("{}", ctx);
    auto stored = to_data<svs::data::SimpleData<T>>(data);
    svs::threads::NativeThreadPool threadpool(nthreads);
    size_t ep = svs::index::vamana::extensions::compute_entry_point(stored, threadpool);
    c.expect(ep < n, "C04:entry-point", "{}: entry point {}", ctx, ep);
    if (c.failed) return;
    Graph g(n, maxdeg);
    Dist dist{};
    {
        svs::index::vamana::VamanaBuilder builder(
            g, stored, dist, p, threadpool, svs::index::vamana::extensions::estimate_prefetch_parameters(stored)
        );
        builder.construct(1.0f, ep);
        check_structure(c, adj_of(g), n, maxdeg, ctx + " (first pass)");
        builder.construct(alpha, ep);
    }
    auto adj = adj_of(g);
    check_structure(c, adj, n, maxdeg, ctx);
    for (size_t i = 0; i < n && !c.failed; ++i) {
        auto x = stored.get_datum(i);
        c.expect(
            std::equal(x.begin(), x.end(), data.row(i), data.row(i) + d, [](auto a, auto b) { return as_double(a) == as_double(b); }),
            "C04:vector-changed", "{}: vector {}", ctx, i
        );
    }
    if (c.failed) return;
    c.distinct(fmt::format("{}|{}", ctx, c.index()));
    size_t edges = 0;
    for (auto& l : adj) edges += l.size();
    // With more than one vector, building must produce edges at all.
    if (n > 1 && shape != Shape::Constant && shape != Shape::Dups && shape != Shape::Grid) {
        c.expect(edges > 0, "C04:no-edges", "{}: graph without edges", ctx);
    }
    // The public entry: builds, and answers.
    auto index = svs::index::vamana::auto_build(p, to_data<svs::data::SimpleData<T>>(data), dist, nthreads);
    c.expect(index.size() == n && index.dimensions() == d && index.max_degree() == maxdeg, "C04:index-shape", "{}: size {} dims {} degree {}", ctx, index.size(), index.dimensions(), index.max_degree());
    c.expect(index.get_alpha() == alpha && index.get_construction_window_size() == window && index.get_max_candidates() == pool, "C04:index-parameters", "{}", ctx);
    size_t nq = 20;
    auto queries = make_data<Q>(r, nq, d, ordinary ? Shape::Gauss : shape);
    if (m == Metric::Cos) no_zeros(queries);
    size_t k = std::min<size_t>(n, 10);
    auto res = fresh(nq, k);
    index.search(res.r.view(), queries.view(), sp_of(std::max<size_t>(60, k), std::max<size_t>(60, k), r.chance(0.5)));
    for (size_t i = 0; i < nq; ++i) {
        check_row(c, m, data, queries.row(i), res.ids(i), res.ds(i), k, NONE, ctx);
    }
    if (!ordinary) return;
    // Navigability.
    auto reach = reachable(adj, ep);
    size_t nreach = std::count(reach.begin(), reach.end(), true);
    if (m == Metric::L2) {
        c.expect(nreach >= n - n / 50, "C04:unreachable", "{}: only {} of {} reachable from {}", ctx, nreach, n, ep);
    }
    c.obs("reachability_permille_sum", 1000 * nreach / n);
    c.obs("reachability_builds");
    size_t hit = 0, tot = 0;
    for (size_t i = 0; i < nq; ++i) {
        auto rank = rank_all<Q, T>(m, queries.row(i), data);
        double kth = rank[k - 1].score;
        auto slack = tol({0, rank[k - 1].scale}, d);
        for (size_t j = 0; j < k; ++j) {
            ++tot;
            auto id = res.ids(i)[j];
            if (id >= n) continue;
            auto e = exact(m, queries.row(i), data.row(id), d);
            if (!better(m, kth, e.value) || std::fabs(kth - e.value) <= slack) ++hit;
        }
    }
    double recall = double(hit) / double(tot);
    c.obs("recall_permille_sum", uint64_t(1000 * recall));
    c.obs("recall_builds");
    double floor = m == Metric::L2 ? 0.95 : 0.80;
    c.expect(recall >= floor, "C03:recall", "{}: recall {} below {}", ctx, recall, floor);
    // Finding stored vectors by themselves.
    if (m == Metric::L2) {
        size_t ns = std::min<size_t>(n, 100), found = 0;
        Mat<Q> self(ns, d);
        for (size_t i = 0; i < ns; ++i) {
            size_t v = (i * 7919) % n;
            for (size_t j = 0; j < d; ++j) self.row(i)[j] = from_double<Q>(as_double(data.row(v)[j]));
        }
        auto rs = fresh(ns, 1);
        index.search(rs.r.view(), self.view(), sp_of(30, 30, false));
        for (size_t i = 0; i < ns; ++i) {
            check_row(c, m, data, self.row(i), rs.ids(i), rs.ds(i), 1, 1, ctx);
            if (c.failed) return;
            auto e = exact(m, self.row(i), data.row(rs.ids(i)[0]), d);
            if (e.value <= 1e-9) ++found;
        }
        c.expect(found * 100 >= ns * 97, "C04:self-search", "{}: only {} of {} stored vectors found by themselves", ctx, found, ns);
    }
    c.sample("{}: edges {} reachable {}/{} recall@{} {:.3f}", ctx, edges, nreach, n, k, recall);
}

inline bool same_rows(const Res& a, size_t i, const Res& b, size_t j, size_t k) {
    for (size_t t = 0; t < k; ++t) {
        if (a.ids(i)[t] != b.ids(j)[t]) return false;
        if (std::memcmp(a.ds(i) + t, b.ds(j) + t, sizeof(float)) != 0 && a.ids(i)[t] != NONE) return false;
    }
    return true;
}

//// The same query under many execution configurations.
template <typename Q, typename T, typename Dist> void invariance(Case& c) {
    auto& r = c.rng;
    constexpr Metric m = metric_of<Dist>();
    size_t n = 30 + r.below(400), d = 2 + r.below(30);
    auto shape = pick_shape<T>(r, false, m);
    auto data = make_data<T>(r, n, d, shape);
    if (m == Metric::Cos) no_zeros(data);
    size_t deg = 4 + r.below(20);
    Dist dist{};
    bool built = r.chance(0.5);
    Adj adj;
    size_t ep = r.below(n);
    if (built) {
        Graph g(n, deg);
        auto stored = to_data<svs::data::SimpleData<T>>(data);
        svs::threads::NativeThreadPool tp(2);
        VamanaBuildParameters p(m == Metric::L2 ? 1.2f : 0.95f, deg, 30, 60, deg, true);
        svs::index::vamana::VamanaBuilder b(g, stored, dist, p, tp);
        b.construct(1.0f, ep);
        adj = adj_of(g);
    } else {
        adj = random_adj(r, n, deg, 3);
    }
    size_t nq = 24;
    auto queries = make_data<Q>(r, nq, d, shape);
    if (m == Metric::Cos) no_zeros(queries);
    size_t k = 1 + r.below(12);
    size_t w = k + r.below(20), cap = w + (r.chance(0.5) ? r.below(10) : 0);
    auto base = sp_of(w, cap, false, 4, 1);
    auto make = [&](size_t threads) {
        return Index<T, Dist>(to_graph(adj, deg), to_data<svs::data::SimpleData<T>>(data), uint32_t(ep), dist, threads);
    };
    auto ctx = fmt::format(
        "{}/{} {} n={} d={} deg={} k={} w={} cap={} built={}", tname<Q>(), tname<T>(),
        metric_name(m), n, d, deg, k, w, cap, built
    );
    c.step("{}", ctx);
    auto index = make(1);
    auto ref = fresh(nq, k);
    index.search(ref.r.view(), queries.view(), base);
    // Ambiguous orders (equal distances of different vectors) may legitimately differ.
    std::vector<bool> clean(nq);
    for (size_t i = 0; i < nq; ++i) {
        check_row(c, m, data, queries.row(i), ref.ids(i), ref.ds(i), k, NONE, ctx);
        auto ld = lib_distances(dist, data, queries.row(i));
        std::set<float> u(ld.begin(), ld.end());
        clean[i] = u.size() == ld.size();
    }
    if (c.failed) return;
    size_t compared = 0;
    auto cmp = [&](const Res& x, size_t xi, size_t qi, const std::string& how) {
        if (!clean[qi]) return;
        ++compared;
        if (!same_rows(x, xi, ref, qi, k)) {
            c.fail(
                "C02:" + how.substr(0, how.find('=')), "{}: query {} with {}: {} vs {}", ctx, qi,
                how, head(std::vector<size_t>(x.ids(xi), x.ids(xi) + k)),
                head(std::vector<size_t>(ref.ids(qi), ref.ids(qi) + k))
            );
        }
    };
    for (size_t threads : {size_t(2), size_t(3), size_t(7), nq + 3}) {
        auto idx = make(1);
        idx.set_num_threads(threads);
        c.expect(idx.get_num_threads() == threads, "C02:get_num_threads", "{}: {} threads reported {}", ctx, threads, idx.get_num_threads());
        auto x = fresh(nq, k);
        idx.search(x.r.view(), queries.view(), base);
        for (size_t i = 0; i < nq; ++i) cmp(x, i, i, fmt::format("threads={}", threads));
    }
    for (bool visited : {false, true}) {
        for (int t = 0; t < 4; ++t) {
            auto sp = base;
            sp.search_buffer_visited_set_ = visited;
            size_t look = r.below(70), step = r.below(9);
            sp.prefetch_lookahead_ = look;
            sp.prefetch_step_ = step;
            auto x = fresh(nq, k);
            index.search(x.r.view(), queries.view(), sp);
            for (size_t i = 0; i < nq; ++i) {
                cmp(x, i, i, fmt::format("{}={} lookahead {} step {}", t ? "prefetch" : "visited", visited, look, step));
            }
        }
    }
    // Sub-batches in another order, on an index with a search history.
    index.set_num_threads(1 + r.below(4));
    for (int t = 0; t < 6; ++t) {
        size_t bs = 1 + r.below(nq);
        std::vector<size_t> pick(bs);
        for (auto& x : pick) x = r.below(nq);
        Mat<Q> sub(bs, d);
        for (size_t i = 0; i < bs; ++i) std::copy_n(queries.row(pick[i]), d, sub.row(i));
        auto x = fresh(bs, k);
        index.search(x.r.view(), sub.view(), base);
        for (size_t i = 0; i < bs; ++i) cmp(x, i, pick[i], fmt::format("batch={}", bs));
    }
    // More neighbors requested with the same buffer: a prefix property.
    if (cap > k) {
        auto x = fresh(nq, cap);
        index.search(x.r.view(), queries.view(), base);
        for (size_t i = 0; i < nq; ++i) cmp(x, i, i, "larger-k=" + std::to_string(cap));
    }
    // Changing the defaults and changing them back.
    {
        auto saved = index.get_search_parameters();
        index.set_search_parameters(base);
        c.expect(index.get_search_parameters() == base, "C02:set_search_parameters", "{}", ctx);
        auto x = svs::index::search_batch(index, queries.view(), k);
        Res xr{std::move(x)};
        for (size_t i = 0; i < nq; ++i) cmp(xr, i, i, "defaults=1");
        index.set_search_parameters(sp_of(1 + r.below(5), 10, true));
        (void)svs::index::search_batch(index, queries.view(), 1 + r.below(20));
        index.set_search_parameters(base);
        Res y{svs::index::search_batch(index, queries.view(), k)};
        for (size_t i = 0; i < nq; ++i) cmp(y, i, i, "restored=1");
        index.set_search_parameters(saved);
        index.reset_performance_parameters();
        auto now = index.get_search_parameters();
        c.expect(now.buffer_config_ == saved.buffer_config_ && now.search_buffer_visited_set_ == saved.search_buffer_visited_set_, "C02:reset-performance", "{}: non-performance parameter changed", ctx);
    }
    // The single-query interface with one scratch space reused.
    {
        auto scratch = index.scratchspace(base);
        for (int t = 0; t < 10; ++t) {
            size_t qi = r.below(nq);
            index.search(queries.span(qi), scratch);
            Res x = fresh(1, k);
            for (size_t j = 0; j < k; ++j) {
                bool has = j < scratch.buffer.size();
                x.r.index(0, j) = has ? scratch.buffer[j].id() : NONE;
                x.r.distance(0, j) = has ? scratch.buffer[j].distance() : 0.0f;
            }
            cmp(x, 0, qi, "single=1");
        }
    }
    // Concurrent single-query searches on the shared index.
    if (r.chance(0.3)) {
        std::vector<std::thread> ts;
        std::vector<Res> out;
        size_t nt = 3;
        for (size_t t = 0; t < nt; ++t) out.push_back(fresh(nq, k));
        for (size_t t = 0; t < nt; ++t) {
            ts.emplace_back([&, t] {
                auto scratch = index.scratchspace(base);
                for (size_t s = 0; s < nq; ++s) {
                    size_t qi = (s + t * 5) % nq;
                    index.search(queries.span(qi), scratch);
                    for (size_t j = 0; j < k; ++j) {
                        bool has = j < scratch.buffer.size();
                        out[t].r.index(qi, j) = has ? scratch.buffer[j].id() : NONE;
                        out[t].r.distance(qi, j) = has ? scratch.buffer[j].distance() : 0.0f;
                    }
                }
            });
        }
        for (auto& t : ts) t.join();
        for (size_t t = 0; t < nt; ++t)
            for (size_t i = 0; i < nq; ++i) cmp(out[t], i, i, "concurrent=" + std::to_string(t));
    }
    // The type-erased facade.
    {
        auto facade = svs::make_vamana<svs::lib::Types<Q>>(make(1 + r.below(3)));
        auto x = fresh(nq, k);
        facade.search(x.r.view(), queries.view(), base);
        for (size_t i = 0; i < nq; ++i) cmp(x, i, i, "erased=1");
        facade.set_search_parameters(base);
        Res y{facade.search(queries, k)};
        for (size_t i = 0; i < nq; ++i) cmp(y, i, i, "erased-defaults=1");
    }
    c.obs("configurations_compared", compared);
    c.distinct(fmt::format("{}|{}", ctx, c.index()));
    c.sample("{}: {} row comparisons", ctx, compared);
}
} // namespace st


#define ST_SCENARIOS(tag, Q, T, Dist, D)                                                    \
    VH_SCENARIO(hand_##tag, "C01 C03 C14", 400 / D, 6000 / D) { st::hand_graph<Q, T, Dist>(c); } \
    VH_SCENARIO(build_##tag, "C01 C03 C04 C13 C14", 60 / D, 600 / D) { st::build<Q, T, Dist>(c); }  \
    VH_SCENARIO(inv_##tag, "C02 C13 C14", 40 / D, 500 / D) { st::invariance<Q, T, Dist>(c); }
