// Dynamic Vamana histories against a model of the live set:
// live set (C05), maintenance (C06), refused requests (C07), save and reload (C17).
#pragma once
#include "gen.h"
#include "rows.h"

#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/orchestrators/dynamic_vamana.h"

namespace dy {
using namespace vh;
using svs::index::vamana::SearchBufferConfig;
using svs::index::vamana::VamanaBuildParameters;
using svs::index::vamana::VamanaSearchParameters;
using Graph = svs::graphs::SimpleBlockedGraph<uint32_t>;

enum class Slot : uint8_t { Empty, Live, Deleted };

inline svs::data::BlockingParameters small_blocks() {
    return svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(12)};
}

template <typename Q, typename T, typename Dist> struct History {
    using Data = svs::data::BlockedData<T>;
    using Index = svs::index::vamana::MutableVamanaIndex<Graph, Data, Dist>;
    static constexpr Metric m = metric_of<Dist>();

    Case& c;
    Rng& r;
    size_t d;
    Shape shape;
    VamanaBuildParameters p;
    Dist dist{};
    std::map<size_t, std::vector<T>> live;
    std::vector<Slot> slots;
    std::optional<Index> index;
    std::string ctx;
    std::vector<std::string> log;
    size_t next_id = 0;
    std::vector<std::vector<double>> centers;
    size_t muts = 0, consolidations = 0, ep_deleted = 0;
    bool benign = false;

    explicit History(Case& c_)
        : c{c_}
        , r{c_.rng} {}

    std::vector<T> vec() {
        std::vector<T> v(d);
        double u = std::is_integral_v<T> ? 40.0 : 1.0;
        double off = std::is_same_v<T, uint8_t> ? 120.0 : 0.0;
        if (shape == Shape::Dups && !live.empty() && r.chance(0.6)) {
            auto it = live.begin();
            std::advance(it, r.below(std::min<size_t>(live.size(), 20)));
            return it->second;
        }
        size_t cl = r.below(centers.size());
        for (size_t j = 0; j < d; ++j) {
            double x = shape == Shape::Cluster ? centers[cl][j] + 0.3 * u * r.normal()
                       : shape == Shape::Grid  ? double(r.in(-2, 2)) * u / 4
                                               : u * r.normal();
            v[j] = from_double<T>(x + off);
        }
        if (m == Metric::Cos || m == Metric::IP) {
            v[0] = from_double<T>(as_double(v[0]) + 0.5 * u);
            // A zero vector has no direction.
            if (m == Metric::Cos && as_double(v[0]) == 0) v[0] = from_double<T>(u);
        }
        return v;
    }
    std::vector<size_t> new_ids(size_t n) {
        std::vector<size_t> ids;
        std::set<size_t> s;
        while (ids.size() < n) {
            size_t id;
            switch (r.below(5)) {
                case 0: id = r(); break;                     // anywhere in 64 bits
                case 1: id = r.below(5000); break;           // also previously deleted ones
                case 2: id = (size_t(1) << 32) + r.below(5000); break;
                default: id = next_id++;
            }
            if (id != NONE && !live.count(id) && s.insert(id).second) ids.push_back(id);
        }
        return ids;
    }
    std::string tail() const {
        std::string s = ctx + " after";
        size_t from = log.size() > 14 ? log.size() - 14 : 0;
        for (size_t i = from; i < log.size(); ++i) s += " " + log[i];
        return s;
    }
    template <typename... A> void note(const char* f, A&&... a) {
        log.push_back(fmt::format(fmt::runtime(f), std::forward<A>(a)...));
        c.step("{}", log.back());
    }
    Mat<T> matrix(const std::vector<std::vector<T>>& vs) const {
        Mat<T> x(vs.size(), d);
        for (size_t i = 0; i < vs.size(); ++i) std::copy(vs[i].begin(), vs[i].end(), x.row(i));
        return x;
    }
    Mat<Q> queries(size_t n) {
        Mat<Q> q(n, d);
        for (size_t i = 0; i < n; ++i) {
            std::vector<T> v = vec();
            if (!live.empty() && r.chance(0.5)) {
                auto it = live.begin();
                std::advance(it, r.below(live.size()));
                v = it->second;
            }
            for (size_t j = 0; j < d; ++j) q.row(i)[j] = from_double<Q>(as_double(v[j]));
        }
        return q;
    }
    std::vector<size_t> live_ids() const {
        std::vector<size_t> v;
        for (auto& [id, _] : live) v.push_back(id);
        return v;
    }
    std::vector<size_t> some_live(size_t n) {
        auto v = live_ids();
        r.shuffle(v);
        if (v.size() > n) v.resize(n);
        return v;
    }

    void params() {
        d = 1 + r.below(r.chance(0.2) ? 70 : 16);
        benign = r.chance(0.5);
        if (benign) d = 4 + r.below(12);
        shape = benign ? r.one_of({Shape::Gauss, Shape::Cluster})
                       : r.one_of({Shape::Gauss, Shape::Cluster, Shape::Grid, Shape::Dups});
        if (m == Metric::Cos && shape == Shape::Grid) shape = Shape::Gauss;
        double u = std::is_integral_v<T> ? 40.0 : 1.0;
        for (int i = 0; i < 5; ++i) {
            std::vector<double> x(d);
            for (auto& y : x) y = u * r.normal();
            centers.push_back(x);
        }
        size_t deg = benign ? 16 + r.below(17) : 2 + r.below(31);
        size_t win = benign ? 40 + r.below(60) : 2 + r.below(100);
        float alpha = m == Metric::L2 ? r.one_of({1.0f, 1.2f, 1.3f}) : r.one_of({1.0f, 0.95f});
        if (benign) alpha = m == Metric::L2 ? 1.2f : 0.95f;
        size_t pool = benign ? 200 + r.below(500) : 2 + r.below(300);
        size_t prune = benign || r.chance(0.4) ? deg : 1 + r.below(deg);
        p = VamanaBuildParameters(alpha, deg, win, pool, prune, r.chance(0.5));
    }
    void build(size_t n) {
        params();
        auto ids = new_ids(n);
        std::vector<std::vector<T>> vs;
        for (auto id : ids) {
            vs.push_back(vec());
            live[id] = vs.back();
        }
        size_t threads = 1 + r.below(3);
        ctx = fmt::format(
            "{} {} {} {} d={} n0={} R={} W={} pool={} prune={} alpha={} hist={} threads={}", tname<Q>(),
            tname<T>(), metric_name(m), shape_name(shape), d, n, p.graph_max_degree, p.window_size,
            p.max_candidate_pool_size, p.prune_to, p.alpha, p.use_full_search_history, threads
        );
        c.step("build {}", ctx);
        typename Data::allocator_type alloc(small_blocks());
        Data data(n, d, alloc);
        for (size_t i = 0; i < n; ++i) data.set_datum(i, std::span<const T>(vs[i]));
        index.emplace(p, std::move(data), ids, dist, threads);
        slots.assign(n, Slot::Live);
        if (r.chance(0.4)) {
            auto sp = index->get_search_parameters();
            size_t w = 1 + r.below(40);
            sp.buffer_config_ = SearchBufferConfig(w, w + r.below(30));
            index->set_search_parameters(sp);
        }
    }

    //// Mutations
    void add(size_t n) {
        auto ids = new_ids(n);
        std::vector<std::vector<T>> vs;
        for (size_t i = 0; i < n; ++i) vs.push_back(vec());
        auto pts = matrix(vs);
        note("add({})", n);
        auto got = index->add_points(pts.view(), ids);
        c.expect(got.size() == n, "C05:add-slots", "{}: {} slots for {} points", tail(), got.size(), n);
        for (size_t i = 0; i < n; ++i) {
            live[ids[i]] = vs[i];
            auto s = index->translate_external_id(ids[i]);
            if (s >= slots.size()) slots.resize(s + 1, Slot::Empty);
            c.expect(slots[s] == Slot::Empty, "C06:slot-reuse", "{}: id {} got slot {} which was in use", tail(), ids[i], s);
            slots[s] = Slot::Live;
        }
        ++muts;
        c.obs("vectors_inserted", n);
    }
    void del(std::vector<size_t> ids) {
        note("del({})", ids.size());
        for (auto id : ids) {
            auto s = index->translate_external_id(id);
            if (s == index->entry_point()) ++ep_deleted;
            slots[s] = Slot::Deleted;
        }
        index->delete_entries(ids);
        for (auto id : ids) live.erase(id);
        ++muts;
        c.obs("vectors_deleted", ids.size());
    }
    void consolidate() {
        note("consolidate");
        index->consolidate();
        for (auto& s : slots)
            if (s == Slot::Deleted) s = Slot::Empty;
        ++consolidations;
        c.obs("consolidations");
    }
    void compact() {
        // Batches smaller than the collection exercise the copy through a temporary.
        size_t bs = r.one_of({size_t(1), size_t(3), size_t(17), size_t(100), size_t(r.chance(0.1) ? 5000 : 300)});
        note("compact({})", bs);
        index->compact(bs);
        size_t n = index->view_data().size();
        bool pending = std::count(slots.begin(), slots.end(), Slot::Deleted) > 0;
        c.expect(pending ? n >= live.size() : n == live.size(), "C06:compact-size", "{}: {} slots for {} live", tail(), n, live.size());
        slots.assign(n, Slot::Deleted);
        for (auto& [id, _] : live) {
            auto s = index->translate_external_id(id);
            if (s >= n) {
                c.fail("C06:compact-mapping", "{}: id {} maps to slot {} of {}", tail(), id, s, n);
                continue;
            }
            c.expect(slots[s] == Slot::Deleted, "C06:compact-mapping", "{}: slot {} shared", tail(), s);
            slots[s] = Slot::Live;
        }
        c.obs("compactions");
    }
    void reload() {
        auto dir = c.scratch() / fmt::format("s{}", log.size());
        std::filesystem::create_directories(dir);
        auto q = queries(6);
        note("save+load");
        auto before_sp = index->get_search_parameters();
        index->save(dir / "config", dir / "graph", dir / "data");
        for (auto& s : slots)
            if (s == Slot::Deleted) s = Slot::Empty;
        slots.assign(index->view_data().size(), Slot::Live);
        check("C17");
        auto a = search(q, 5, before_sp);
        float alpha = index->get_alpha();
        auto ws = index->get_construction_window_size();
        auto mc = index->get_max_candidates();
        auto fh = index->get_full_search_history();
        size_t threads = 1 + r.below(3);
        typename Data::allocator_type alloc(small_blocks());
        auto loaded = svs::index::vamana::auto_dynamic_assemble(
            dir / "config", SVS_LAZY(Graph::load(dir / "graph")),
            SVS_LAZY(Data::load(dir / "data", alloc)), dist, threads
        );
        index.emplace(std::move(loaded));
        c.expect(
            index->get_alpha() == alpha && index->get_construction_window_size() == ws &&
                index->get_max_candidates() == mc && index->get_full_search_history() == fh,
            "C17:dynamic-parameters", "{}: alpha {}->{} window {}->{} pool {}->{} history {}->{}", tail(), alpha,
            index->get_alpha(), ws, index->get_construction_window_size(), mc, index->get_max_candidates(), fh,
            index->get_full_search_history()
        );
        c.expect(index->get_search_parameters() == before_sp, "C17:search-parameters", "{}: search parameters changed", tail());
        auto b = search(q, 5, before_sp);
        for (size_t i = 0; i < q.n; ++i)
            for (size_t j = 0; j < 5; ++j)
                c.expect(a.ids(i)[j] == b.ids(i)[j] && (a.ids(i)[j] == NONE || a.ds(i)[j] == b.ds(i)[j]), "C17:dynamic-answers", "{}: query {} slot {}: {} then {}", tail(), i, j, a.ids(i)[j], b.ids(i)[j]);
        std::filesystem::remove_all(dir);
        c.obs("reloads");
    }

    //// Monitors
    Res search(const Mat<Q>& q, size_t k, const VamanaSearchParameters& sp) {
        auto x = fresh(q.n, k);
        index->search(x.r.view(), q.cview(), sp);
        return x;
    }
    const T* lookup(size_t id) const {
        auto it = live.find(id);
        return it == live.end() ? nullptr : it->second.data();
    }
    std::vector<bool> reach() const {
        std::vector<bool> seen(slots.size());
        if (slots.empty()) return seen;
        std::vector<size_t> todo{index->entry_point()};
        seen[todo[0]] = true;
        while (!todo.empty()) {
            auto v = todo.back();
            todo.pop_back();
            for (auto w : index->view_graph().get_node(v))
                if (w < slots.size() && !seen[w]) {
                    seen[w] = true;
                    todo.push_back(w);
                }
        }
        return seen;
    }
    // The live set, its vectors and the graph (all cheap and exact).
    void check(const std::string& P = "C05") {
        c.expect(index->size() == live.size(), P + ":size", "{}: size {} live {}", tail(), index->size(), live.size());
        auto ids = index->external_ids();
        std::sort(ids.begin(), ids.end());
        c.expect(ids == live_ids(), P + ":ids", "{}: lists {} ids, live {}", tail(), ids.size(), live.size());
        size_t cnt = 0;
        index->on_ids([&](size_t id) { cnt += live.count(id); });
        c.expect(cnt == live.size(), P + ":on-ids", "{}: visited {} of {}", tail(), cnt, live.size());
        for (auto& [id, v] : live) {
            if (!index->has_id(id)) {
                c.fail(P + ":has-id", "{}: live id {} unknown", tail(), id);
                return;
            }
            auto x = index->get_datum(id);
            if (!std::equal(v.begin(), v.end(), x.begin(), x.end())) {
                c.fail(P + ":vector", "{}: id {} holds another vector", tail(), id);
                return;
            }
        }
        for (int i = 0; i < 20; ++i) {
            size_t id = r.chance(0.5) ? r.below(5000) : r();
            c.expect(index->has_id(id) == (live.count(id) > 0), P + ":has-id", "{}: has_id({})", tail(), id);
        }
        c.expect(index->dimensions() == d, P + ":dimensions", "{}: dimensions {}", tail(), index->dimensions());
        c.obs("live_set_checks");
        graph_check();
    }
    void graph_check() {
        auto& g = index->view_graph();
        size_t n = index->view_data().size();
        c.expect(g.n_nodes() == n, "C06:graph-size", "{}: graph {} data {}", tail(), g.n_nodes(), n);
        if (n > slots.size()) slots.resize(n, Slot::Empty); // spare room left by a refused insertion
        for (auto& [id, _] : live) {
            auto s = index->translate_external_id(id);
            if (!c.expect(s < n && slots[s] == Slot::Live && index->translate_internal_id(s) == id && !index->is_deleted(s), "C06:slot", "{}: id {} in slot {}", tail(), id, s)) return;
        }
        for (size_t i = 0; i < n; ++i) {
            if (slots[i] == Slot::Empty) continue;
            auto nb = g.get_node(i);
            std::set<uint32_t> seen;
            if (nb.size() > p.graph_max_degree || nb.size() > g.max_degree()) {
                c.fail("C06:degree", "{}: slot {} has {} neighbors", tail(), i, nb.size());
                return;
            }
            for (auto j : nb) {
                const char* what = j >= n ? "out-of-range" : j == i ? "self" : !seen.insert(j).second ? "duplicate" : slots[j] == Slot::Empty ? "vacated" : nullptr;
                if (what) {
                    c.fail(std::string("C06:edge-") + what, "{}: slot {} -> {}", tail(), i, j);
                    return;
                }
            }
        }
        c.obs("graph_checks");
    }
    void after_consolidation() {
        auto& g = index->view_graph();
        for (size_t i = 0; i < slots.size(); ++i) {
            if (slots[i] != Slot::Live) continue;
            for (auto j : g.get_node(i))
                if (slots[j] != Slot::Live) {
                    c.fail("C06:edge-to-deleted", "{}: slot {} -> {} after consolidation", tail(), i, j);
                    return;
                }
        }
        if (!live.empty())
            c.expect(slots.at(index->entry_point()) == Slot::Live, "C06:entry-point", "{}: entry point {} is not live", tail(), index->entry_point());
        index->debug_check_invariants(false);
    }
    void search_check() {
        auto q = queries(1 + r.below(6));
        size_t k = 1 + r.below(r.chance(0.2) ? live.size() + 5 : 12);
        auto sp = index->get_search_parameters();
        if (r.chance(0.7)) {
            size_t w = r.chance(0.2) ? 1 + r.below(live.size() + 10) : 1 + r.below(30);
            sp.buffer_config_ = SearchBufferConfig(w, w + r.below(20));
            sp.search_buffer_visited_set_ = r.chance(0.5);
            sp.prefetch_lookahead_ = r.below(6);
            sp.prefetch_step_ = r.below(3);
        }
        Mat<T> none(0, d);
        auto look = std::function<const T*(size_t)>([&](size_t id) { return lookup(id); });
        auto x = search(q, k, sp);
        // With a window of at least k (also when it was raised to k), k are found.
        bool enough = sp.buffer_config_.get_search_window_size() >= k || sp.buffer_config_.get_total_capacity() < k;
        auto seen = reach();
        size_t reachable = 0;
        for (size_t i = 0; i < slots.size(); ++i) reachable += slots[i] == Slot::Live && seen[i];
        for (size_t i = 0; i < q.n; ++i)
            check_row(c, m, none, q.row(i), x.ids(i), x.ds(i), k, enough ? std::min(k, reachable) : NONE, tail() + fmt::format(" search k={} w={}/{}", k, sp.buffer_config_.get_search_window_size(), sp.buffer_config_.get_total_capacity()), "C05", look);
        // A window covering everything finds exactly the best reachable live vectors.
        if (r.chance(0.5) && slots.size() <= 3000) {
            auto full = sp;
            size_t w = std::max<size_t>(slots.size() + 1, 2);
            full.buffer_config_ = SearchBufferConfig(w);
            auto y = search(q, k, full);
            for (size_t i = 0; i < q.n; ++i) {
                std::vector<double> best;
                double sc = 0;
                for (auto& [id, v] : live) {
                    if (!seen[index->translate_external_id(id)]) continue;
                    auto e = exact(m, q.row(i), v.data(), d);
                    best.push_back(e.value);
                    sc = std::max(sc, e.scale);
                }
                std::sort(best.begin(), best.end(), [&](double a, double b) { return better(m, a, b); });
                for (size_t j = 0; j < k && j < best.size(); ++j) {
                    Exact e{best[j], sc};
                    bool ok = y.ids(i)[j] != NONE && std::fabs(y.ds(i)[j] - best[j]) <= 2 * tol(e, d);
                    if (!c.expect(ok, "C05:full-window", "{}: query {} slot {} is {} at {}, best reachable is {}", tail(), i, j, y.ids(i)[j], y.ds(i)[j], best[j])) break;
                }
            }
        }
        // Exhaustive search is exact.
        auto z = fresh(q.n, k);
        index->exhaustive_search(q.cview(), k, z.r.view());
        for (size_t i = 0; i < q.n; ++i) {
            check_row(c, m, none, q.row(i), z.ids(i), z.ds(i), k, live.size(), tail() + " exhaustive", "C05", look);
            std::vector<double> best;
            double sc = 0;
            for (auto& [id, v] : live) {
                auto e = exact(m, q.row(i), v.data(), d);
                best.push_back(e.value);
                sc = std::max(sc, e.scale);
            }
            std::sort(best.begin(), best.end(), [&](double a, double b) { return better(m, a, b); });
            for (size_t j = 0; j < k && j < best.size(); ++j) {
                Exact e{best[j], sc};
                bool ok = z.ids(i)[j] != NONE && std::fabs(z.ds(i)[j] - best[j]) <= 2 * tol(e, d);
                if (!c.expect(ok, "C05:exhaustive", "{}: query {} slot {} is {} at {}, best is {}", tail(), i, j, z.ids(i)[j], z.ds(i)[j], best[j])) break;
            }
        }
    }
    void reconstruct_check() {
        auto ids = some_live(1 + r.below(30));
        if (ids.empty()) return;
        std::vector<uint64_t> u(ids.begin(), ids.end());
        if (r.chance(0.4)) u.push_back(u[0]); // repeated ids are fine
        Mat<float> out(u.size(), d);
        std::fill(out.v.begin(), out.v.end(), -777.0f);
        index->reconstruct_at(svs::data::SimpleDataView<float>(out.v.data(), out.n, d), std::span<const uint64_t>(u));
        for (size_t i = 0; i < u.size(); ++i)
            for (size_t j = 0; j < d; ++j)
                if (!c.expect(double(out.row(i)[j]) == as_double(live[u[i]][j]), "C05:reconstruct", "{}: id {} component {} is {}", tail(), u[i], j, out.row(i)[j])) return;
        c.obs("reconstructions");
    }
    // Accuracy over the live set, judged only on benign data and settled graphs.
    void recall_check(bool hard) {
        if (live.size() < 60) return;
        size_t k = 5, nq = 40, hit = 0, total = 0, self = 0;
        auto sp = index->get_search_parameters();
        sp.buffer_config_ = SearchBufferConfig(40);
        Mat<Q> q = queries(nq);
        auto x = search(q, k, sp);
        for (size_t i = 0; i < nq; ++i) {
            std::vector<std::pair<double, size_t>> best;
            for (auto& [id, v] : live) best.push_back({exact(m, q.row(i), v.data(), d).value, id});
            std::sort(best.begin(), best.end(), [&](auto& a, auto& b) { return better(m, a.first, b.first); });
            double cut = best[k - 1].first;
            Exact e{cut, std::fabs(cut) + 1e-9};
            for (size_t j = 0; j < k; ++j) {
                ++total;
                hit += x.ids(i)[j] != NONE && (better(m, x.ds(i)[j], cut) || std::fabs(x.ds(i)[j] - cut) <= 1e-4 * e.scale);
            }
        }
        auto seen = reach();
        size_t reachable = 0;
        for (size_t i = 0; i < slots.size(); ++i) reachable += slots[i] == Slot::Live && seen[i];
        (void)self;
        double recall = double(hit) / total, rr = double(reachable) / live.size();
        c.obs("recall_permille_sum", uint64_t(1000 * recall));
        c.obs("reach_permille_sum", uint64_t(1000 * rr));
        c.obs("recall_measurements");
        if (session().opt.verbose) fmt::print(stderr, "recall {} reach {} hard {} {}\n", recall, rr, hard, tail());
        if (hard) {
            // Graphs for other metrics on clustered data need not be that navigable.
            if (m != Metric::L2 && shape == Shape::Cluster) return;
            c.expect(recall >= (m == Metric::L2 ? 0.95 : 0.9), "C06:recall", "{}: recall {} with {} live", tail(), recall, live.size());
            if (m == Metric::L2) c.expect(rr >= 0.97, "C06:reachable", "{}: {} of {} live vectors reachable", tail(), reachable, live.size());
        }
    }

    //// Requests that must be refused
    struct Snapshot {
        std::vector<size_t> ids;
        Res a, b;
        VamanaSearchParameters sp;
    };
    Snapshot snapshot(const Mat<Q>& q) {
        auto ids = index->external_ids();
        std::sort(ids.begin(), ids.end());
        auto sp = index->get_search_parameters();
        auto a = search(q, 5, sp);
        auto b = fresh(q.n, 5);
        index->exhaustive_search(q.cview(), 5, b.r.view());
        return {ids, std::move(a), std::move(b), sp};
    }
    template <typename F> void refused(const char* what, F&& f) {
        auto q = queries(4);
        auto s = snapshot(q);
        note("refuse:{}", what);
        bool threw = throws(f);
        c.expect(threw, fmt::format("C07:accepted-{}", what), "{}: no exception", tail());
        c.obs("refused_requests");
        if (!threw) return; // whatever happened was not a refusal
        auto t = snapshot(q);
        bool same = s.ids == t.ids && s.sp == t.sp;
        for (size_t i = 0; i < q.n && same; ++i)
            for (size_t j = 0; j < 5; ++j)
                same &= s.a.ids(i)[j] == t.a.ids(i)[j] && s.b.ids(i)[j] == t.b.ids(i)[j] && s.a.ds(i)[j] == t.a.ds(i)[j];
        c.expect(same, fmt::format("C07:changed-by-{}", what), "{}: the index changed", tail());
        check("C07");
    }
    void bad_request() {
        size_t n = 1 + r.below(5);
        std::vector<std::vector<T>> vs;
        for (size_t i = 0; i < n; ++i) vs.push_back(vec());
        auto pts = matrix(vs);
        switch (r.below(10)) {
            case 0: {
                if (live.empty()) return;
                auto ids = new_ids(n);
                ids[r.below(n)] = some_live(1)[0];
                refused("existing-id", [&] { index->add_points(pts.view(), ids); });
                break;
            }
            case 1: {
                if (n < 2) return;
                auto ids = new_ids(n);
                ids[n - 1] = ids[r.below(n - 1)];
                refused("repeated-id", [&] { index->add_points(pts.view(), ids); });
                break;
            }
            case 2: {
                auto ids = new_ids(n + (r.chance(0.5) ? 1 : 0));
                if (ids.size() == n) ids.pop_back();
                refused("id-count", [&] { index->add_points(pts.view(), ids); });
                break;
            }
            case 3: {
                size_t dd = r.chance(0.5) && d > 1 ? d - 1 : d + 1 + r.below(3);
                Mat<T> w(n, dd);
                std::fill(w.v.begin(), w.v.end(), T(1));
                auto ids = new_ids(n);
                refused("wrong-dimension", [&] { index->add_points(w.view(), ids); });
                break;
            }
            case 4: {
                auto ids = some_live(n);
                ids.push_back(new_ids(1)[0]);
                r.shuffle(ids);
                refused("delete-unknown", [&] { index->delete_entries(ids); });
                break;
            }
            case 5: {
                if (live.empty()) return;
                auto ids = some_live(n);
                ids.push_back(ids[r.below(ids.size())]);
                r.shuffle(ids);
                refused("delete-repeated", [&] { index->delete_entries(ids); });
                break;
            }
            case 6: {
                auto ids = some_live(n);
                ids.push_back(new_ids(1)[0]);
                r.shuffle(ids);
                std::vector<uint64_t> u(ids.begin(), ids.end());
                Mat<float> out(u.size(), d);
                std::fill(out.v.begin(), out.v.end(), -777.0f);
                refused("reconstruct-unknown", [&] { index->reconstruct_at(svs::data::SimpleDataView<float>(out.v.data(), out.n, d), std::span<const uint64_t>(u)); });
                bool clean = std::all_of(out.v.begin(), out.v.end(), [](float x) { return x == -777.0f; });
                c.expect(clean, "C07:reconstruct-wrote", "{}: destination was written", tail());
                break;
            }
            case 7: {
                if (live.empty()) return;
                auto ids = some_live(n);
                std::vector<uint64_t> u(ids.begin(), ids.end());
                bool rows = r.chance(0.5);
                size_t on = rows ? u.size() + 1 : u.size(), od = rows ? d : d + 1;
                Mat<float> out(on, od);
                refused("reconstruct-shape", [&] { index->reconstruct_at(svs::data::SimpleDataView<float>(out.v.data(), on, od), std::span<const uint64_t>(u)); });
                break;
            }
            case 8: {
                refused("get-unknown", [&] { (void)index->get_datum(new_ids(1)[0]); });
                break;
            }
            case 9: {
                refused("bad-buffer-config", [&] {
                    auto sp = index->get_search_parameters();
                    size_t w = 2 + r.below(50);
                    sp.buffer_config_ = SearchBufferConfig(w, w - 1 - r.below(w - 1));
                    index->set_search_parameters(sp);
                });
                break;
            }
        }
    }

    void run(size_t n0, size_t ops, bool bad, bool reloads, bool judge) {
        build(n0);
        check();
        search_check();
        if (judge && benign) recall_check(true);
        for (size_t op = 0; op < ops && !c.failed; ++op) {
            if (bad && r.chance(0.5)) {
                bad_request();
                continue;
            }
            size_t x = r.below(100);
            if (x < 30) {
                add(r.chance(0.05) ? 0 : 1 + r.below(r.chance(0.2) ? n0 : n0 / 4 + 2));
            } else if (x < 60) {
                auto ids = some_live(1 + r.below(live.size() / (r.chance(0.1) ? 1 : 3) + 1));
                if (r.chance(0.3) && !live.empty() && !index->is_deleted(index->entry_point()) && slots.size()) {
                    auto e = index->translate_internal_id(index->entry_point());
                    if (std::find(ids.begin(), ids.end(), e) == ids.end()) ids.push_back(e);
                }
                if (judge && ids.size() * 2 > live.size()) ids.resize(live.size() / 2);
                del(ids);
            } else if (x < 75) {
                auto before = live.size();
                consolidate();
                (void)before;
                check();
                after_consolidation();
                if (judge && benign && r.chance(0.5)) recall_check(true);
            } else if (x < 85) {
                if (r.chance(0.7)) consolidate();
                compact();
            } else if (x < 90 && reloads && !live.empty()) {
                reload();
            } else if (x < 93) {
                index->set_num_threads(1 + r.below(4));
                c.expect(index->get_num_threads() >= 1, "C05:threads", "{}: threads", tail());
            } else if (x < 95) {
                // Delete everything, then carry on.
                if (!judge && r.chance(0.3)) del(live_ids());
            } else {
                reconstruct_check();
            }
            check();
            if (r.chance(0.6)) search_check();
        }
        if (c.failed) return;
        search_check();
        reconstruct_check();
        if (judge) {
            consolidate();
            check();
            after_consolidation();
            if (benign) recall_check(true);
        }
        if (ep_deleted) c.obs("entry_point_deletions", ep_deleted);
        uint64_t h = hash_str(ctx);
        for (auto& l : log) h = mix(h ^ hash_str(l));
        c.distinct(h);
        c.sample("{} | {}", ctx, head(log, 20));
    }
};

template <typename Q, typename T, typename Dist> void history(Case& c) {
    History<Q, T, Dist> h(c);
    bool small = c.rng.chance(0.6);
    h.run(small ? 1 + c.rng.below(30) : 30 + c.rng.below(150), 8 + c.rng.below(25), false, c.rng.chance(0.3), false);
}
template <typename Q, typename T, typename Dist> void refusals(Case& c) {
    History<Q, T, Dist> h(c);
    h.run(2 + c.rng.below(60), 16 + c.rng.below(16), true, false, false);
}
template <typename Q, typename T, typename Dist> void longrun(Case& c) {
    History<Q, T, Dist> h(c);
    h.run(150 + c.rng.below(250), 30 + c.rng.below(30), false, false, true);
}
template <typename Q, typename T, typename Dist> void reloading(Case& c) {
    History<Q, T, Dist> h(c);
    h.build(1 + c.rng.below(80));
    for (size_t i = 0, n = 1 + c.rng.below(5); i < n && !c.failed; ++i) {
        if (c.rng.chance(0.7)) h.add(1 + c.rng.below(30));
        if (c.rng.chance(0.7) && h.live.size() > 1) h.del(h.some_live(1 + c.rng.below(h.live.size() - 1)));
        h.reload();
        h.check("C17");
        h.search_check();
    }
    uint64_t x = hash_str(h.ctx);
    for (auto& l : h.log) x = mix(x ^ hash_str(l));
    c.distinct(x);
    c.sample("{} | {}", h.ctx, head(h.log, 20));
}
} // namespace dy

#define DY_SCENARIOS(tag, Q, T, Dist, D)                                                           \
    VH_SCENARIO(history_##tag, "C05 C06 C13 C14", 160 / D, 3000 / D) { dy::history<Q, T, Dist>(c); }       \
    VH_SCENARIO(refusals_##tag, "C07 C14", 160 / D, 2500 / D) { dy::refusals<Q, T, Dist>(c); }         \
    VH_SCENARIO(longrun_##tag, "C05 C06 C13 C14", 24 / D, 400 / D) { dy::longrun<Q, T, Dist>(c); }         \
    VH_SCENARIO(reload_##tag, "C17 C13 C14", 60 / D, 900 / D) { dy::reloading<Q, T, Dist>(c); }
