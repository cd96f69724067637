// Whole indexes and documents of older versions as saved objects (C17, C18).
#pragma once
#include "storage_impl.h"

#include "svs/index/inverted/memory_based.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/orchestrators/vamana.h"

namespace so {
using Graph = svs::graphs::SimpleGraph<uint32_t>;
using BlockedGraph = svs::graphs::SimpleBlockedGraph<uint32_t>;

inline va::VamanaBuildParameters sane_build(Rng& r, size_t deg) {
    size_t w = 5 + r.below(60);
    return {float(1 + r.uniform()), deg, w, w + r.below(200), 1 + r.below(deg), r.chance(0.5)};
}
inline va::VamanaSearchParameters sane_search(Rng& r) {
    size_t w = 1 + r.below(30);
    return {va::SearchBufferConfig(w, w + r.below(10)), r.chance(0.5), r.below(6), r.below(4)};
}
inline void dump_results(Bytes& o, const svs::QueryResult<size_t>& r) {
    for (size_t i = 0; i < r.n_queries(); ++i)
        for (size_t j = 0; j < r.n_neighbors(); ++j) {
            dump(o, r.index(i, j));
            dump(o, r.distance(i, j));
        }
}
template <typename Index, typename T> void dump_answers(Bytes& o, Index& index, const Mat<T>& queries, size_t k) {
    auto res = fresh(queries.n, k);
    index.search(res.r.view(), queries.cview(), index.get_search_parameters());
    dump_results(o, res.r);
}
template <typename Index> void dump_settings(Bytes& o, const Index& x) {
    dump(o, x.get_alpha());
    dump(o, size_t(x.get_construction_window_size()));
    dump(o, size_t(x.get_max_candidates()));
    dump_params(o, x.get_search_parameters());
    dump(o, size_t(x.size()));
    dump(o, size_t(x.dimensions()));
}

// Three directories: config, graph, data.
template <typename T, typename Dist> Art static_art(Case& c) {
    auto& r = c.rng;
    size_t n = 2 + r.below(60), d = 1 + r.below(r.chance(0.2) ? 70 : 20), deg = 1 + r.below(20), k = 1 + r.below(std::min<size_t>(n, 8));
    Dist dist{};
    auto mat = std::make_shared<Mat<T>>(make_data<T>(r, n, d, r.one_of({Shape::Gauss, Shape::Uniform, Shape::Cluster})));
    auto queries = std::make_shared<Mat<T>>(make_data<T>(r, 4, d, Shape::Gauss));
    no_zeros(*mat);
    no_zeros(*queries);
    auto g = std::make_shared<Graph>(any_graph<uint32_t>(r, n, deg));
    uint32_t entry = uint32_t(r.below(n));
    auto sp = sane_search(r);
    auto config = va::VamanaIndexParameters(entry, sane_build(r, deg), sp);
    using Index = va::VamanaIndex<Graph, svs::data::SimpleData<T>, Dist>;
    size_t threads = 1 + r.below(3);
    auto make = [=]() {
        Graph copy(n, deg);
        for (size_t i = 0; i < n; ++i) copy.replace_node(uint32_t(i), g->get_node(uint32_t(i)));
        Index x(std::move(copy), to_data<svs::data::SimpleData<T>>(*mat), entry, dist, svs::threads::NativeThreadPool(threads));
        x.apply(config);
        return x;
    };
    auto place = std::make_shared<fs::path>(c.scratch() / "resaved");
    // Settings, stored vectors and answers.
    auto form = [=](auto& x) {
        Bytes o;
        dump_settings(o, x);
        dump(o, size_t(x.max_degree()));
        auto back = svs::data::SimpleData<float>(n, d);
        std::vector<uint64_t> ids(n);
        for (size_t i = 0; i < n; ++i) ids[i] = i;
        if (x.size() == n && x.dimensions() == d) {
            x.reconstruct_at(svs::data::SimpleDataView<float>(back.data(), n, d), std::span<const uint64_t>(ids));
            dump_data(o, back);
        }
        dump_answers(o, x, *queries, k);
        return o;
    };
    Art a;
    a.kind = fmt::format("static index of {}x{} {} degree {}", n, d, tname<T>(), deg);
    a.save = [=](const fs::path& p) {
        fs::create_directories(p);
        make().save(p / "config", p / "graph", p / "data");
    };
    size_t t2 = 1 + r.below(4);
    a.loads = {
        {"assemble", [=](const fs::path& p) {
             auto x = va::auto_assemble(p / "config", svs::GraphLoader(p / "graph"), svs::VectorDataLoader<T>(p / "data"), dist, t2);
             return form(x);
         }},
        {"assemble and save again", [=](const fs::path& p) {
             auto x = va::auto_assemble(p / "config", SVS_LAZY(Graph::load(p / "graph")), SVS_LAZY(svs::data::SimpleData<T>::load(p / "data")), dist, t2);
             auto o = form(x);
             // What it holds in full, by way of another copy.
             fs::remove_all(*place);
             fs::create_directories(*place);
             x.save(*place / "config", *place / "graph", *place / "data");
             Bytes f;
             dump_params(f, lib::load_from_disk<va::VamanaIndexParameters>(*place / "config"));
             dump_graph(f, Graph::load(*place / "graph"));
             dump_data(f, svs::data::SimpleData<T>::load(*place / "data"));
             Bytes w;
             dump_params(w, config);
             dump_graph(w, *g);
             dump_data(w, to_data<svs::data::SimpleData<T>>(*mat));
             fs::remove_all(*place);
             return f == w ? o : o + "resaved contents differ: " + fo::where(f, w);
         }},
    };
    if constexpr (std::is_same_v<T, float>) {
        a.loads.push_back({"facade", [=](const fs::path& p) {
             auto x = svs::Vamana::assemble<float>(p / "config", svs::GraphLoader(p / "graph"), svs::VectorDataLoader<float>(p / "data"), dist, t2);
             Bytes o;
             dump_settings(o, x);
             dump(o, deg);
             auto back = svs::data::SimpleData<float>(n, d);
             std::vector<uint64_t> ids(n);
             for (size_t i = 0; i < n; ++i) ids[i] = i;
             x.reconstruct_at(svs::data::SimpleDataView<float>(back.data(), n, d), std::span<const uint64_t>(ids));
             dump_data(o, back);
             dump_answers(o, x, *queries, k);
             return o;
         }});
    }
    if (r.chance(0.5)) {
        a.loads.push_back({"as a dynamic index", [=](const fs::path& p) {
             using Blk = svs::data::BlockedData<T>;
             auto x = va::auto_dynamic_assemble(p / "config", SVS_LAZY(BlockedGraph::load(p / "graph")), SVS_LAZY(Blk::load(p / "data")), dist, t2, true);
             // Same numbering, graph and vectors.
             bool same = x.view_graph().n_nodes() == n && x.view_data().size() == n && x.entry_point() == entry;
             for (size_t i = 0; same && i < n; ++i) {
                 auto l = x.view_graph().get_node(uint32_t(i));
                 auto e = g->get_node(uint32_t(i));
                 auto v = x.view_data().get_datum(i);
                 same = std::equal(l.begin(), l.end(), e.begin(), e.end()) && std::equal(v.begin(), v.end(), mat->row(i), mat->row(i) + d) && x.translate_internal_id(uint32_t(i)) == i;
             }
             Bytes got, w;
             dump_settings(got, x);
             auto y = make();
             dump_settings(w, y);
             return same && got == w ? form(y) : Bytes("another index");
         }});
    }
    using Other = std::conditional_t<std::is_same_v<T, float>, svs::Float16, float>;
    a.wrong = {
        {"vectors of another type", [=](const fs::path& p) { (void)va::auto_assemble(p / "config", svs::GraphLoader(p / "graph"), svs::VectorDataLoader<Other>(p / "data"), dist, 1); }},
        {"graph for configuration", [=](const fs::path& p) { (void)va::auto_assemble(p / "graph", svs::GraphLoader(p / "graph"), svs::VectorDataLoader<T>(p / "data"), dist, 1); }},
        {"data for graph", [=](const fs::path& p) { (void)va::auto_assemble(p / "config", svs::GraphLoader(p / "data"), svs::VectorDataLoader<T>(p / "data"), dist, 1); }},
        {"graph for data", [=](const fs::path& p) { (void)va::auto_assemble(p / "config", svs::GraphLoader(p / "graph"), svs::VectorDataLoader<T>(p / "graph"), dist, 1); }},
        {"dynamic index", [=](const fs::path& p) {
             using Blk = svs::data::BlockedData<T>;
             (void)va::auto_dynamic_assemble(p / "config", SVS_LAZY(BlockedGraph::load(p / "graph")), SVS_LAZY(Blk::load(p / "data")), dist, 1);
         }},
        {"companion of another size", [=](const fs::path& p) {
             svs::data::SimpleData<T> less(n - 1, d);
             for (size_t i = 0; i + 1 < n; ++i) less.set_datum(i, mat->span(i));
             (void)va::auto_assemble(p / "config", svs::GraphLoader(p / "graph"), std::move(less), dist, 1);
         }},
    };
    auto x = make();
    a.want = form(x);
    return a;
}

template <typename T, typename Dist> Art dynamic_art(Case& c) {
    auto& r = c.rng;
    size_t n = 3 + r.below(50), d = 1 + r.below(20), deg = 2 + r.below(14), k = 1 + r.below(5);
    Dist dist{};
    auto m = make_data<T>(r, n, d, r.one_of({Shape::Gauss, Shape::Uniform, Shape::Cluster}));
    auto queries = std::make_shared<Mat<T>>(make_data<T>(r, 4, d, Shape::Gauss));
    no_zeros(m);
    no_zeros(*queries);
    using Blk = svs::data::BlockedData<T, svs::Dynamic, lib::Allocator<T>>;
    auto alloc = fo::blocked_alloc<T>(r, d);
    Blk b(n, d, alloc);
    for (size_t i = 0; i < n; ++i) b.set_datum(i, m.span(i));
    std::set<size_t> s;
    while (s.size() < n) s.insert(r.chance(0.8) ? r.below(10 * n) : r.below(1ULL << 62));
    std::vector<size_t> ids(s.begin(), s.end());
    r.shuffle(ids);
    auto bp = sane_build(r, deg);
    size_t threads = 1 + r.below(3);
    auto index = std::make_shared<va::MutableVamanaIndex<BlockedGraph, Blk, Dist>>(bp, std::move(b), ids, dist, threads);
    index->set_search_parameters(sane_search(r));
    std::map<size_t, size_t> live;
    for (size_t i = 0; i < n; ++i) live[ids[i]] = i;
    if (r.chance(0.6)) {
        std::vector<size_t> dead;
        for (size_t i = 0; i < n / 3; ++i) dead.push_back(ids[i]);
        index->delete_entries(dead);
        for (auto e : dead) live.erase(e);
    }
    auto form = [=](auto& x, bool adjacency) {
        Bytes o;
        dump_settings(o, x);
        dump(o, x.get_full_search_history());
        auto all = x.external_ids();
        std::sort(all.begin(), all.end());
        dump_vec(o, all);
        for (auto e : all) {
            auto v = x.get_datum(e);
            for (size_t j = 0; j < v.size(); ++j) {
                T y = v[j];
                fo::put(o, y);
            }
        }
        if (adjacency) {
            dump(o, size_t(x.entry_point()));
            dump_graph(o, x.view_graph());
            for (size_t i = 0; i < x.view_data().size(); ++i) dump(o, x.translate_internal_id(uint32_t(i)));
            dump_answers(o, x, *queries, k);
        }
        return o;
    };
    auto before = form(*index, false);
    Art a;
    a.kind = fmt::format("dynamic index of {} ids of {}, {} x{} degree {}", live.size(), n, tname<T>(), d, deg);
    a.save = [=](const fs::path& p) {
        fs::create_directories(p);
        index->save(p / "config", p / "graph", p / "data");
    };
    auto first = c.scratch() / "first";
    a.save(first);
    fs::remove_all(first);
    auto after = form(*index, false);
    c.expect(before == after, "C17:saving-changes", "{}: saving changed ids, vectors or settings ({})", a.kind, fo::where(before, after));
    size_t t2 = 1 + r.below(4);
    a.loads = {
        {"assemble", [=](const fs::path& p) {
             auto x = va::auto_dynamic_assemble(p / "config", SVS_LAZY(BlockedGraph::load(p / "graph")), SVS_LAZY(Blk::load(p / "data", alloc)), dist, t2);
             auto o = form(x, true);
             x.debug_check_invariants(false);
             return o;
         }},
    };
    using Other = std::conditional_t<std::is_same_v<T, float>, svs::Float16, float>;
    a.wrong = {
        {"vectors of another type", [=](const fs::path& p) { (void)va::auto_dynamic_assemble(p / "config", SVS_LAZY(BlockedGraph::load(p / "graph")), SVS_LAZY(svs::data::BlockedData<Other>::load(p / "data")), dist, 1); }},
        {"static index", [=](const fs::path& p) { (void)va::auto_assemble(p / "config", svs::GraphLoader(p / "graph"), svs::VectorDataLoader<T>(p / "data"), dist, 1); }},
        {"static index with identity ids", [=](const fs::path& p) { (void)va::auto_dynamic_assemble(p / "config", SVS_LAZY(BlockedGraph::load(p / "graph")), SVS_LAZY(Blk::load(p / "data", alloc)), dist, 1, true); }},
    };
    a.want = form(*index, true);
    return a;
}

template <typename T, typename Dist> Art inverted_art(Case& c) {
    auto& r = c.rng;
    size_t n = 40 + r.below(80), d = 2 + r.below(12), k = 1 + r.below(5);
    Dist dist{};
    auto mat = std::make_shared<Mat<T>>(make_data<T>(r, n, d, r.one_of({Shape::Gauss, Shape::Uniform, Shape::Cluster})));
    auto queries = std::make_shared<Mat<T>>(make_data<T>(r, 4, d, Shape::Gauss));
    no_zeros(*mat);
    no_zeros(*queries);
    inv::InvertedBuildParameters bp(
        inv::ClusteringParameters().percent_centroids(lib::Percent(0.1 + 0.2 * r.uniform())).max_replicas(1 + r.below(4)).seed(r.below(1000)),
        va::VamanaBuildParameters{1.2f, 2 + r.below(10), 20, 40, 2, true}
    );
    auto clusters = std::make_shared<inv::Clustering<uint32_t>>();
    auto built = inv::auto_build(
        bp, to_data<svs::data::SimpleData<T>>(*mat), dist, 1 + r.below(3), inv::SparseStrategy(), inv::PickRandomly(),
        [&](const auto& x) { *clusters = x; }
    );
    using Index = decltype(built);
    auto index = std::make_shared<Index>(std::move(built));
    auto sp = inv::InvertedSearchParameters(va::VamanaSearchParameters{va::SearchBufferConfig(1 + r.below(6)), false, 4, 1}, r.uniform());
    auto form = [=](auto& x) {
        Bytes o;
        auto res = fresh(queries->n, k);
        x.search(res.r.view(), queries->cview(), sp);
        dump_results(o, res.r);
        return o;
    };
    Art a;
    a.kind = fmt::format("inverted index of {}x{} {}, {} clusters", n, d, tname<T>(), clusters->size());
    a.save = [=](const fs::path& p) {
        fs::create_directories(p);
        index->save_primary_index(p / "config", p / "graph", p / "centroids");
        lib::save_to_disk(*clusters, p / "clusters");
        lib::save_to_disk(to_data<svs::data::SimpleData<T>>(*mat), p / "data");
    };
    size_t t2 = 1 + r.below(4);
    bool dense = r.chance(0.5);
    a.loads = {{"assemble", [=](const fs::path& p) {
                    if (dense) {
                        auto x = inv::assemble_from_clustering(p / "clusters", svs::VectorDataLoader<T>(p / "data"), dist, inv::DenseStrategy(), p / "config", p / "graph", t2);
                        return form(x);
                    }
                    auto x = inv::assemble_from_clustering(p / "clusters", svs::VectorDataLoader<T>(p / "data"), dist, inv::SparseStrategy(), p / "config", p / "graph", t2);
                    return form(x);
                }}};
    using Other = std::conditional_t<std::is_same_v<T, float>, svs::Float16, float>;
    a.wrong = {
        {"vectors of another type", [=](const fs::path& p) { (void)inv::assemble_from_clustering(p / "clusters", svs::VectorDataLoader<Other>(p / "data"), dist, inv::SparseStrategy(), p / "config", p / "graph", 1); }},
        {"clusters and graph exchanged", [=](const fs::path& p) { (void)inv::assemble_from_clustering(p / "graph", svs::VectorDataLoader<T>(p / "data"), dist, inv::SparseStrategy(), p / "config", p / "clusters", 1); }},
        {"fewer vectors than clustered", [=](const fs::path& p) { (void)inv::assemble_from_clustering(p / "clusters", svs::VectorDataLoader<T>(p / "centroids"), dist, inv::SparseStrategy(), p / "config", p / "graph", 1); }},
    };
    a.want = form(*index);
    a.unused = "centroids/";
    return a;
}

inline Art any_index_art(Case& c) {
    switch (c.rng.below(8)) {
        case 0: return static_art<float, svs::distance::DistanceL2>(c);
        case 1: return static_art<float, svs::distance::DistanceCosineSimilarity>(c);
        case 2: return static_art<uint8_t, svs::distance::DistanceL2>(c);
        case 3: return dynamic_art<float, svs::distance::DistanceL2>(c);
        case 4: return dynamic_art<float, svs::distance::DistanceIP>(c);
        case 5: return dynamic_art<svs::Float16, svs::distance::DistanceL2>(c);
        case 6: return inverted_art<float, svs::distance::DistanceL2>(c);
        default: return static_art<float, svs::distance::DistanceIP>(c);
    }
}
} // namespace so
