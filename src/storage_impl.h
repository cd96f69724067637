// Saved objects: reloading reproduces them (C17), damage to them is refused (C18).
#pragma once
#include "formats_impl.h"
#include "rows.h"

#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/core/translation.h"
#include "svs/index/inverted/clustering.h"
#include "svs/index/inverted/memory_build_params.h"
#include "svs/index/inverted/memory_search_params.h"
#include "svs/index/vamana/index.h"
#include "svs/lib/saveload.h"

namespace so {
using namespace vh;
namespace fs = std::filesystem;
namespace lib = svs::lib;
namespace va = svs::index::vamana;
namespace inv = svs::index::inverted;
using fo::Bytes;
using fo::slurp;
using fo::spit;

// Text form of everything observable of an object; equal text means equal object.
template <typename T> void dump(Bytes& o, const T& x) {
    if constexpr (std::is_same_v<T, std::string>) {
        o += fmt::format("s{}:", x.size()) + x;
    } else if constexpr (std::is_same_v<T, svs::DataType> || std::is_same_v<T, svs::DistanceType>) {
        o += fmt::format("e{};", int(x));
    } else {
        fo::put(o, x);
    }
}
template <typename T> void dump_vec(Bytes& o, const T& v) {
    dump(o, size_t(v.size()));
    for (const auto& x : v) dump(o, x);
}
template <typename Data> void dump_data(Bytes& o, const Data& d) {
    using T = typename Data::element_type;
    dump(o, size_t(d.size()));
    dump(o, size_t(d.dimensions()));
    for (size_t i = 0; i < d.size(); ++i) {
        auto v = d.get_datum(i);
        for (size_t j = 0; j < v.size(); ++j) {
            T x = v[j];
            fo::put(o, x);
        }
    }
}
template <typename Graph> void dump_graph(Bytes& o, const Graph& g) {
    dump(o, size_t(g.n_nodes()));
    dump(o, size_t(g.max_degree()));
    for (size_t i = 0; i < g.n_nodes(); ++i) dump_vec(o, g.get_node(i));
}
inline void dump_params(Bytes& o, const va::VamanaSearchParameters& p) {
    dump(o, size_t(p.buffer_config_.get_search_window_size()));
    dump(o, size_t(p.buffer_config_.get_total_capacity()));
    dump(o, p.search_buffer_visited_set_);
    dump(o, size_t(p.prefetch_lookahead_));
    dump(o, size_t(p.prefetch_step_));
}
inline void dump_params(Bytes& o, const va::VamanaBuildParameters& p) {
    dump(o, p.alpha);
    for (size_t x : {p.graph_max_degree, p.window_size, p.max_candidate_pool_size, p.prune_to}) dump(o, x);
    dump(o, p.use_full_search_history);
}
inline void dump_params(Bytes& o, const va::VamanaIndexParameters& p) {
    dump(o, size_t(p.entry_point));
    dump_params(o, p.build_parameters);
    dump_params(o, p.search_parameters);
}
inline void dump_params(Bytes& o, const inv::ClusteringParameters& p) {
    dump(o, double(p.percent_centroids_.value()));
    dump(o, double(p.epsilon_));
    dump(o, size_t(p.max_replicas_));
    dump(o, size_t(p.max_cluster_size_));
    dump(o, uint64_t(p.seed_));
    dump(o, size_t(p.batchsize_));
    dump(o, size_t(p.search_window_size_));
    dump(o, size_t(p.num_intermediate_results_));
    dump(o, double(p.refinement_alpha_));
}
inline void dump_params(Bytes& o, const inv::InvertedBuildParameters& p) {
    dump_params(o, p.clustering_parameters_);
    dump_params(o, p.primary_parameters_);
}
inline void dump_params(Bytes& o, const inv::InvertedSearchParameters& p) {
    dump_params(o, p.primary_parameters_);
    dump(o, double(p.refinement_epsilon_));
}
template <typename Tr> void dump_translator(Bytes& o, const Tr& t) {
    std::map<uint64_t, uint64_t> m;
    for (auto i = t.begin(), e = t.end(); i != e; ++i) {
        m[i->first] = i->second;
        dump(o, uint64_t(t.get_external(i->second)));
    }
    o.clear(); // order of the table does not matter
    dump(o, size_t(t.size()));
    for (auto& kv : m) {
        dump(o, kv.first);
        dump(o, kv.second);
        dump(o, uint64_t(t.get_external(kv.second)));
    }
}
template <typename I> void dump_clustering(Bytes& o, const inv::Clustering<I>& c) {
    std::map<uint64_t, Bytes> m;
    for (auto& kv : c) {
        Bytes b;
        dump(b, kv.second.centroid());
        dump(b, size_t(kv.second.elements().size()));
        for (auto& e : kv.second.elements()) {
            dump(b, e.id());
            dump(b, e.distance());
        }
        m[kv.first] = b;
    }
    dump(o, m.size());
    for (auto& kv : m) {
        dump(o, kv.first);
        o += kv.second;
    }
}

// Random objects.
inline size_t any_size(Rng& r) {
    switch (r.below(5)) {
        case 0: return r.below(3);
        case 1: return r.below(1000);
        case 2: return (1ULL << 32) - 2 + r.below(4);
        case 3: return (1ULL << 53) - 2 + r.below(4);
        default: return (1ULL << 62) + r.below(1000);
    }
}
inline double any_double(Rng& r) {
    switch (r.below(5)) {
        case 0: return double(r.in(-2, 2));
        case 1: return r.normal();
        case 2: return 0.1 * double(r.in(0, 20));
        case 3: return r.normal() * std::pow(10.0, double(r.in(-300, 300)));
        default: return std::nextafter(1.0, r.chance(0.5) ? 2.0 : 0.0);
    }
}
inline float any_alpha(Rng& r) { return r.chance(0.3) ? 1.2f : float(0.5 + r.uniform()); }
inline va::VamanaSearchParameters any_search(Rng& r) {
    size_t w = any_size(r), cap = w + (r.chance(0.5) ? 0 : r.below(1000));
    return {va::SearchBufferConfig(w, cap), r.chance(0.5), any_size(r), any_size(r)};
}
inline va::VamanaBuildParameters any_build(Rng& r) {
    return {any_alpha(r), any_size(r), any_size(r), any_size(r), any_size(r), r.chance(0.5)};
}
inline inv::ClusteringParameters any_clustering(Rng& r) {
    return {lib::Percent(r.uniform()), any_double(r), any_size(r), any_size(r), r.below(1ULL << 32) << 32 | r.below(1ULL << 32), any_size(r), any_size(r), any_size(r), any_double(r)};
}
template <typename Idx> svs::graphs::SimpleGraph<Idx> any_graph(Rng& r, size_t n, size_t deg) {
    svs::graphs::SimpleGraph<Idx> g(n, deg);
    for (size_t i = 0; i < n; ++i) {
        std::set<Idx> s;
        for (size_t k = 0, e = r.below(deg + 1); k < e && n > 1; ++k) s.insert(Idx(r.below(n)));
        s.erase(Idx(i));
        g.replace_node(Idx(i), std::vector<Idx>(s.begin(), s.end()));
    }
    return g;
}
template <typename I> inv::Clustering<I> any_clusters(Rng& r) {
    inv::Clustering<I> c;
    size_t n = r.below(12);
    for (size_t i = 0; i < n; ++i) {
        inv::Cluster<I> cl(I(i * 10 + r.below(10)));
        for (size_t k = 0, e = r.below(9); k < e; ++k) cl.elements_.push_back({I(1000 + r.below(5000)), float(r.normal())});
        c.insert(std::move(cl));
    }
    return c;
}

// Several objects saved as one.
struct Composite {
    svs::data::SimpleData<float> a, b;
    svs::data::SimpleData<uint8_t> u;
    svs::graphs::SimpleGraph<uint32_t> g;
    std::vector<uint64_t> blob;
    svs::IDTranslator ids;
    inv::Clustering<uint32_t> cl;
    va::VamanaBuildParameters bp;
    std::string text;
    std::vector<std::vector<int64_t>> nested;
    double x;
    int64_t i;
    bool flag;

    static constexpr lib::Version save_version{0, 0, 7};
    static constexpr std::string_view serialization_schema = "verif_composite";
    lib::SaveTable save(const lib::SaveContext& ctx) const {
        return lib::SaveTable(
            serialization_schema, save_version,
            {{"a", lib::save(a, ctx)},
             {"b", lib::save(b, ctx)},
             {"u", lib::save(u, ctx)},
             {"g", lib::save(g, ctx)},
             {"blob", lib::save(lib::BinaryBlobSaver<uint64_t>(blob), ctx)},
             {"ids", lib::save(ids, ctx)},
             {"cl", lib::save(cl, ctx)},
             {"bp", lib::save(bp)},
             {"text", lib::save(text)},
             {"nested", lib::save(nested)},
             {"x", lib::save(x)},
             {"i", lib::save(i)},
             {"flag", lib::save(flag)}}
        );
    }
    static Composite load(const lib::LoadTable& t) {
        return Composite{
            lib::load_at<svs::data::SimpleData<float>>(t, "a"),
            lib::load_at<svs::data::SimpleData<float>>(t, "b"),
            lib::load_at<svs::data::SimpleData<uint8_t>>(t, "u"),
            lib::load_at<svs::graphs::SimpleGraph<uint32_t>>(t, "g"),
            lib::load_at<lib::BinaryBlobLoader<uint64_t>>(t, "blob"),
            lib::load_at<svs::IDTranslator>(t, "ids"),
            lib::load_at<inv::Clustering<uint32_t>>(t, "cl"),
            lib::load_at<va::VamanaBuildParameters>(t, "bp"),
            lib::load_at<std::string>(t, "text"),
            lib::load_at<std::vector<std::vector<int64_t>>>(t, "nested"),
            lib::load_at<double>(t, "x"),
            lib::load_at<int64_t>(t, "i"),
            lib::load_at<bool>(t, "flag")};
    }
    Bytes text_form() const {
        Bytes o, t;
        dump_translator(t, ids);
        o += t;
        dump_data(o, a);
        dump_data(o, b);
        dump_data(o, u);
        dump_graph(o, g);
        dump_vec(o, blob);
        dump_clustering(o, cl);
        dump_params(o, bp);
        dump(o, text);
        dump(o, nested.size());
        for (auto& v : nested) dump_vec(o, v);
        dump(o, x);
        dump(o, i);
        dump(o, flag);
        return o;
    }
};

inline std::string any_text(Rng& r) {
    // Control characters and triple quotes are left to the (third-party) text format.
    static const std::vector<std::string> pieces = {"a", "Zz", " ", "\"", "'", "\\", "#", "=", "[", "]", "\xc3\xa9", "\xe2\x82\xac", "0x1f", "\\u0041", "/", ".."};
    std::string s;
    for (size_t k = 0, e = r.below(12); k < e; ++k) s += pieces[r.below(pieces.size())];
    return s;
}
inline svs::IDTranslator any_ids(Rng& r, size_t n) {
    svs::IDTranslator t;
    std::set<uint64_t> ext;
    while (ext.size() < n) ext.insert(r.chance(0.7) ? r.below(10 * n + 1) : r.below(1ULL << 62));
    std::vector<uint64_t> e(ext.begin(), ext.end());
    r.shuffle(e);
    for (size_t i = 0; i < n; ++i) t.insert_translation(e[i], uint32_t(i));
    return t;
}
inline Composite any_composite(Rng& r) {
    auto data = [&] { return to_data<svs::data::SimpleData<float>>(fo::any_mat<float>(r, r.below(9), 1 + r.below(9))); };
    auto a = data(), b = data();
    std::vector<uint64_t> blob(r.below(20));
    for (auto& x : blob) x = r.below(1ULL << 32) << 32 | r.below(1ULL << 32);
    std::vector<std::vector<int64_t>> nested(r.below(4));
    for (auto& v : nested) {
        v.resize(r.below(4));
        for (auto& x : v) x = r.in(-5, 5);
    }
    return Composite{
        std::move(a), std::move(b), to_data<svs::data::SimpleData<uint8_t>>(fo::any_mat<uint8_t>(r, r.below(9), 1 + r.below(9))),
        any_graph<uint32_t>(r, 1 + r.below(12), 1 + r.below(6)), blob, any_ids(r, r.below(12)), any_clusters<uint32_t>(r),
        any_build(r), any_text(r), nested, any_double(r), std::numeric_limits<int64_t>::min() + int64_t(any_size(r)), r.chance(0.5)};
}

// A saved object: how it is written, how it is loaded, what it must turn out to be.
struct Art {
    std::string kind;
    std::function<void(const fs::path&)> save;
    std::vector<std::pair<std::string, std::function<Bytes(const fs::path&)>>> loads; // equal ways of loading it
    std::vector<std::pair<std::string, std::function<void(const fs::path&)>>> wrong;  // requests that do not match it
    Bytes want;
    std::string unused; // files below this are not needed for loading
};

template <typename T> Art data_art(Rng& r, bool blocked) {
    auto [n, d] = fo::any_shape(r, true);
    if (r.chance(0.2)) d = 4;
    auto m = std::make_shared<Mat<T>>(fo::any_mat<T>(r, n, d));
    Art a;
    a.kind = fmt::format("{} data<{}> {}x{}", blocked ? "blocked" : "plain", tname<T>(), n, d);
    using Simple = svs::data::SimpleData<T>;
    using Huge = svs::data::SimpleData<T, svs::Dynamic, svs::HugepageAllocator<T>>;
    using Blk = svs::data::BlockedData<T, svs::Dynamic, lib::Allocator<T>>;
    auto alloc = fo::blocked_alloc<T>(r, d);
    a.save = [m, blocked, alloc](const fs::path& p) {
        if (blocked) {
            Blk b(m->n, m->d, alloc);
            for (size_t i = 0; i < m->n; ++i) b.set_datum(i, m->span(i));
            lib::save_to_disk(b, p);
        } else {
            lib::save_to_disk(to_data<Simple>(*m), p);
        }
    };
    auto form = [](const auto& x) {
        Bytes o;
        dump_data(o, x);
        return o;
    };
    a.loads = {
        {"load", [form](const fs::path& p) { return form(Simple::load(p)); }},
        {"huge", [form](const fs::path& p) { return form(Huge::load(p)); }},
        {"blocked", [form, alloc](const fs::path& p) { return form(Blk::load(p, alloc)); }},
        {"config file", [form](const fs::path& p) { return form(lib::load_from_disk<Simple>(p / "svs_config.toml")); }},
        {"loader", [form](const fs::path& p) { return form(svs::VectorDataLoader<T>(p).load()); }},
        {"deduced", [form](const fs::path& p) {
             auto u = svs::UnspecializedVectorDataLoader<>(p);
             if (u.type_ != svs::datatype_v<T>) throw std::runtime_error("deduced another type");
             auto x = u.refine(svs::lib::Type<T>()).load();
             if (x.dimensions() != u.dims_) return Bytes("deduced other dimensions");
             return form(x);
         }},
    };
    if (d == 4) {
        a.loads.push_back({"fixed", [form](const fs::path& p) { return form(svs::data::SimpleData<T, 4>::load(p)); }});
    } else {
        a.wrong.push_back({"4 dimensions", [](const fs::path& p) { (void)svs::data::SimpleData<T, 4>::load(p); }});
        a.wrong.push_back({"4 dimensions, blocked", [alloc](const fs::path& p) { (void)svs::data::BlockedData<T, 4, lib::Allocator<T>>::load(p, alloc); }});
        a.wrong.push_back({"hint of 4 dimensions", [](const fs::path& p) { (void)svs::UnspecializedVectorDataLoader<>(p, std::nullopt, 4); }});
    }
    using Other = std::conditional_t<std::is_same_v<T, float>, uint32_t, std::conditional_t<std::is_same_v<T, uint8_t>, int8_t, float>>;
    a.wrong.push_back({"another element type", [](const fs::path& p) { (void)svs::data::SimpleData<Other>::load(p); }});
    a.wrong.push_back({"another element type, blocked", [](const fs::path& p) { (void)svs::data::BlockedData<Other>::load(p); }});
    a.wrong.push_back({"another type hint", [](const fs::path& p) { (void)svs::UnspecializedVectorDataLoader<>(p, svs::datatype_v<Other>, std::nullopt); }});
    a.wrong.push_back({"a graph", [](const fs::path& p) { (void)svs::graphs::SimpleGraph<uint32_t>::load(p); }});
    a.wrong.push_back({"index parameters", [](const fs::path& p) { (void)lib::load_from_disk<va::VamanaIndexParameters>(p); }});
    Bytes o;
    dump(o, m->n);
    dump(o, m->d);
    o += fo::payload(*m);
    a.want = o;
    return a;
}

template <typename Idx> Art graph_art(Rng& r, bool blocked) {
    size_t n = 1 + r.below(r.chance(0.2) ? 200 : 20), deg = 1 + r.below(r.chance(0.2) ? 70 : 12);
    auto g = std::make_shared<svs::graphs::SimpleGraph<Idx>>(any_graph<Idx>(r, n, deg));
    Art a;
    a.kind = fmt::format("{} graph<{}> {} nodes degree {}", blocked ? "blocked" : "plain", tname<Idx>(), n, deg);
    using Plain = svs::graphs::SimpleGraph<Idx>;
    using Small = svs::graphs::SimpleGraph<Idx, lib::Allocator<Idx>>;
    using Blk = svs::graphs::SimpleBlockedGraph<Idx>;
    a.save = [g, blocked, n, deg](const fs::path& p) {
        if (blocked) {
            Blk b(deg, n);
            for (size_t i = 0; i < n; ++i) b.replace_node(Idx(i), g->get_node(Idx(i)));
            lib::save_to_disk(b, p);
        } else {
            lib::save_to_disk(*g, p);
        }
    };
    auto form = [](const auto& x) {
        Bytes o;
        dump_graph(o, x);
        return o;
    };
    a.loads = {
        {"load", [form](const fs::path& p) { return form(Plain::load(p)); }},
        {"other allocator", [form](const fs::path& p) { return form(Small::load(p)); }},
        {"blocked", [form](const fs::path& p) { return form(Blk::load(p)); }},
        {"loader", [form](const fs::path& p) { return form(svs::GraphLoader<Idx>(p).load()); }},
        {"config file", [form](const fs::path& p) { return form(Plain::load(p / "svs_config.toml")); }},
    };
    using Other = std::conditional_t<std::is_same_v<Idx, uint32_t>, uint64_t, uint32_t>;
    a.wrong = {
        {"another id type", [](const fs::path& p) { (void)svs::graphs::SimpleGraph<Other>::load(p); }},
        {"another id type, blocked", [](const fs::path& p) { (void)svs::graphs::SimpleBlockedGraph<Other>::load(p); }},
        {"a dataset", [](const fs::path& p) { (void)svs::data::SimpleData<Idx>::load(p); }},
        {"a translator", [](const fs::path& p) { (void)lib::load_from_disk<svs::IDTranslator>(p); }},
    };
    a.want = form(*g);
    return a;
}

template <typename P> Art param_art(const P& p, std::string kind) {
    Art a;
    a.kind = std::move(kind);
    a.save = [p](const fs::path& dir) { lib::save_to_disk(p, dir); };
    a.loads = {
        {"load", [](const fs::path& dir) {
             Bytes o;
             dump_params(o, lib::load_from_disk<P>(dir));
             return o;
         }},
        {"file", [](const fs::path& dir) {
             Bytes o;
             dump_params(o, lib::load_from_file<P>(dir / "svs_config.toml"));
             return o;
         }},
    };
    if constexpr (!std::is_same_v<P, va::VamanaSearchParameters>) {
        a.wrong.push_back({"search parameters", [](const fs::path& d) { (void)lib::load_from_disk<va::VamanaSearchParameters>(d); }});
    }
    if constexpr (!std::is_same_v<P, inv::ClusteringParameters>) {
        a.wrong.push_back({"clustering parameters", [](const fs::path& d) { (void)lib::load_from_disk<inv::ClusteringParameters>(d); }});
    }
    if constexpr (!std::is_same_v<P, va::VamanaIndexParameters>) {
        a.wrong.push_back({"index parameters", [](const fs::path& d) { (void)lib::load_from_disk<va::VamanaIndexParameters>(d); }});
    }
    a.wrong.push_back({"a dataset", [](const fs::path& d) { (void)svs::data::SimpleData<float>::load(d); }});
    dump_params(a.want, p);
    return a;
}

template <typename T> Art blob_art(Rng& r) {
    auto v = std::make_shared<std::vector<T>>(r.below(60));
    for (auto& x : *v) x = fo::any_value<T>(r);
    Art a;
    a.kind = fmt::format("blob<{}> {}", tname<T>(), v->size());
    a.save = [v](const fs::path& p) { lib::save_to_disk(lib::BinaryBlobSaver<T>(*v), p); };
    auto form = [](const auto& x) {
        Bytes o;
        dump_vec(o, x);
        return o;
    };
    a.loads = {
        {"load", [form](const fs::path& p) {
             std::vector<T> x = lib::load_from_disk<lib::BinaryBlobLoader<T>>(p);
             return form(x);
         }},
        {"other allocator", [form](const fs::path& p) {
             std::vector<T, lib::Allocator<T>> x = lib::load_from_disk<lib::BinaryBlobLoader<T, lib::Allocator<T>>>(p, lib::Allocator<T>());
             return form(x);
         }},
    };
    using Other = std::conditional_t<std::is_same_v<T, float>, uint32_t, float>;
    a.wrong = {
        {"another element type", [](const fs::path& p) { (void)lib::load_from_disk<lib::BinaryBlobLoader<Other>>(p); }},
        {"a dataset", [](const fs::path& p) { (void)svs::data::SimpleData<float>::load(p); }},
    };
    a.want = form(*v);
    return a;
}
inline Art translator_art(Rng& r) {
    auto t = std::make_shared<svs::IDTranslator>(any_ids(r, r.below(40)));
    Art a;
    a.kind = fmt::format("translator {}", t->size());
    a.save = [t](const fs::path& p) { lib::save_to_disk(*t, p); };
    a.loads = {{"load", [](const fs::path& p) {
                    Bytes o;
                    dump_translator(o, lib::load_from_disk<svs::IDTranslator>(p));
                    return o;
                }}};
    a.wrong = {
        {"a dataset", [](const fs::path& p) { (void)svs::data::SimpleData<float>::load(p); }},
        {"a clustering", [](const fs::path& p) { (void)lib::load_from_disk<inv::Clustering<uint32_t>>(p); }},
    };
    dump_translator(a.want, *t);
    return a;
}
template <typename I> Art clustering_art(Rng& r) {
    auto t = std::make_shared<inv::Clustering<I>>(any_clusters<I>(r));
    Art a;
    a.kind = fmt::format("clustering<{}> {}", tname<I>(), t->size());
    a.save = [t](const fs::path& p) { lib::save_to_disk(*t, p); };
    a.loads = {{"load", [](const fs::path& p) {
                    Bytes o;
                    dump_clustering(o, lib::load_from_disk<inv::Clustering<I>>(p));
                    return o;
                }}};
    using Other = std::conditional_t<std::is_same_v<I, uint32_t>, uint64_t, uint32_t>;
    a.wrong = {
        {"another integer type", [](const fs::path& p) { (void)lib::load_from_disk<inv::Clustering<Other>>(p); }},
        {"a graph", [](const fs::path& p) { (void)svs::graphs::SimpleGraph<uint32_t>::load(p); }},
    };
    dump_clustering(a.want, *t);
    return a;
}
inline Art composite_art(Rng& r) {
    auto t = std::make_shared<Composite>(any_composite(r));
    Art a;
    a.kind = "composite";
    a.save = [t](const fs::path& p) { lib::save_to_disk(*t, p); };
    a.loads = {
        {"load", [](const fs::path& p) { return lib::load_from_disk<Composite>(p).text_form(); }},
        {"config file", [](const fs::path& p) { return lib::load_from_disk<Composite>(p / "svs_config.toml").text_form(); }},
    };
    a.wrong = {
        {"a dataset", [](const fs::path& p) { (void)svs::data::SimpleData<float>::load(p); }},
        {"index parameters", [](const fs::path& p) { (void)lib::load_from_disk<va::VamanaIndexParameters>(p); }},
    };
    a.want = t->text_form();
    return a;
}
inline Art any_param_art(Rng& r) {
    switch (r.below(6)) {
        case 0: return param_art(any_search(r), "search parameters");
        case 1: return param_art(any_build(r), "build parameters");
        case 2: return param_art(va::VamanaIndexParameters(any_size(r), any_build(r), any_search(r)), "index parameters");
        case 3: return param_art(any_clustering(r), "clustering parameters");
        case 4: return param_art(inv::InvertedBuildParameters(any_clustering(r), any_build(r)), "inverted build parameters");
        default: return param_art(inv::InvertedSearchParameters(any_search(r), any_double(r)), "inverted search parameters");
    }
}
inline Art any_data_art(Rng& r) {
    bool blocked = r.chance(0.4);
    switch (r.below(5)) {
        case 0: return data_art<float>(r, blocked);
        case 1: return data_art<svs::Float16>(r, blocked);
        case 2: return data_art<uint8_t>(r, blocked);
        case 3: return data_art<int8_t>(r, blocked);
        default: return data_art<double>(r, blocked);
    }
}
inline Art any_other_art(Rng& r) {
    switch (r.below(7)) {
        case 0: return graph_art<uint32_t>(r, r.chance(0.4));
        case 1: return graph_art<uint64_t>(r, r.chance(0.4));
        case 2: return r.chance(0.5) ? blob_art<float>(r) : blob_art<uint64_t>(r);
        case 3: return translator_art(r);
        case 4: return r.chance(0.5) ? clustering_art<uint32_t>(r) : clustering_art<uint64_t>(r);
        case 5: return graph_art<uint32_t>(r, r.chance(0.4));
        default: return composite_art(r);
    }
}

// All files below a directory with their contents.
using Tree = std::map<std::string, Bytes>;
inline Tree tree_of(const fs::path& p) {
    Tree t;
    for (auto& e : fs::recursive_directory_iterator(p)) {
        if (e.is_regular_file()) t[fs::relative(e.path(), p).string()] = slurp(e.path());
    }
    return t;
}
inline void plant_tree(const fs::path& p, const Tree& t) {
    std::error_code ec;
    fs::remove_all(p, ec);
    fs::create_directories(p);
    for (auto& kv : t) {
        fs::create_directories((p / kv.first).parent_path());
        spit(p / kv.first, kv.second);
    }
}

inline void round_trip(Case& c, const Art& a) {
    auto& r = c.rng;
    c.step("round trip {}", a.kind);
    auto dir = c.scratch() / "obj";
    if (r.chance(0.2)) {
        // Something older is in the way.
        auto old = any_other_art(r);
        old.save(dir);
    }
    a.save(dir);
    auto before = tree_of(dir);
    fs::path place = dir;
    if (r.chance(0.4)) {
        place = c.scratch() / "moved";
        fs::rename(dir, place);
    }
    for (auto& [how, load] : a.loads) {
        Bytes got = load(place);
        c.expect(got == a.want, "C17:reload", "{} loaded by '{}' differs: {}", a.kind, how, fo::where(got, a.want));
        c.obs("reloads");
    }
    for (auto& [how, load] : a.wrong) {
        c.expect(throws([&] { load(place); }), "C18:mismatch", "{} was loaded as {}", a.kind, how);
        c.obs("mismatching_requests");
    }
    c.expect(tree_of(place) == before, "C17:files", "{}: loading changed the files", a.kind);
    c.distinct(hash_bytes(a.want.data(), a.want.size(), hash_str(a.kind)));
    c.sample("{}", a.kind);
}
} // namespace so
