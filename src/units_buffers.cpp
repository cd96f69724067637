// Candidate buffers, the visited filter (C20) and neighbor pruning (C24) against reference rules.
#include "gen.h"

#include "svs/index/vamana/dynamic_search_buffer.h"
#include "svs/index/vamana/prune.h"
#include "svs/index/vamana/search_buffer.h"

namespace {
using namespace vh;
namespace va = svs::index::vamana;

// Everything offered to a buffer since it was last cleared.
struct Offered {
    float d;
    bool valid;
};

template <typename Cmp> bool better(float a, float b) { return Cmp{}(a, b); }

// The contents a buffer must have: `live` lists what is in it, in order.
struct Item {
    uint32_t id;
    float d;
    bool visited, valid;
};

// Checks order, membership and completeness. capacity counts valid candidates.
template <typename Cmp>
void judge(Case& c, const std::string& ctx, const std::vector<Item>& live, const std::map<uint32_t, Offered>& off, size_t capacity, const std::set<uint32_t>& visited) {
    std::set<uint32_t> seen;
    std::vector<float> got, want;
    for (size_t i = 0; i < live.size(); ++i) {
        auto& x = live[i];
        if (i && better<Cmp>(x.d, live[i - 1].d)) return c.fail("C20:order", "{}: position {} ({}) is better than the one before ({})", ctx, i, x.d, live[i - 1].d);
        if (!seen.insert(x.id).second) return c.fail("C20:duplicate", "{}: id {} twice", ctx, x.id);
        auto it = off.find(x.id);
        if (it == off.end()) return c.fail("C20:invented", "{}: id {} was never offered", ctx, x.id);
        if (it->second.d != x.d || it->second.valid != x.valid) return c.fail("C20:altered", "{}: id {} distance {} was {}", ctx, x.id, x.d, it->second.d);
        if (x.visited != (visited.count(x.id) > 0)) return c.fail("C20:flag", "{}: id {} visited flag {}", ctx, x.id, x.visited);
        if (x.valid) got.push_back(x.d);
    }
    for (auto& [id, o] : off)
        if (o.valid) want.push_back(o.d);
    std::sort(want.begin(), want.end(), [](float a, float b) { return better<Cmp>(a, b); });
    bool full = want.size() >= capacity;
    if (want.size() > capacity) want.resize(capacity);
    if (got != want) return c.fail("C20:best", "{}: holds {} valid candidates, expected the best {} of {}", ctx, got.size(), want.size(), off.size());
    // Invalid ones: all that are nearer than the last valid one.
    for (auto& [id, o] : off) {
        if (o.valid) continue;
        bool must = !full || better<Cmp>(o.d, want.back()), never = full && better<Cmp>(want.back(), o.d);
        if (must && !seen.count(id)) return c.fail("C20:lost-invalid", "{}: candidate {} at {} was dropped too early", ctx, id, o.d);
        if (never && seen.count(id)) return c.fail("C20:kept-invalid", "{}: candidate {} at {} lies beyond the last live one", ctx, id, o.d);
    }
}
// How many leading entries are inside the window.
size_t window_of(const std::vector<Item>& live, size_t window) {
    size_t n = 0;
    for (size_t i = 0; i < live.size(); ++i)
        if (live[i].valid && ++n == window) return i + 1;
    return live.size();
}

template <bool Dynamic, typename Buffer> std::vector<Item> contents(const Buffer& b) {
    std::vector<Item> out;
    for (const auto& x : b) {
        bool valid = true;
        if constexpr (Dynamic) valid = x.valid();
        out.push_back({x.id(), x.distance(), x.visited(), valid});
    }
    return out;
}

template <bool Dynamic, typename Cmp> void buffer_case(Case& c) {
    using Buffer = std::conditional_t<Dynamic, va::MutableBuffer<uint32_t, Cmp>, va::SearchBuffer<uint32_t, Cmp>>;
    using Value = typename Buffer::value_type;
    auto& r = c.rng;
    Buffer buf;
    bool started = false;
    size_t searches = 1 + r.below(6);
    for (size_t s = 0; s < searches && !c.failed; ++s) {
        size_t window = 1 + r.below(r.chance(0.2) ? 60 : 8);
        size_t capacity = r.chance(0.4) ? window : window + r.below(r.chance(0.3) ? 40 : 6);
        bool filter = r.chance(0.4);
        int how = r.below(4);
        if (!started || how == 0) {
            if (window == capacity && r.chance(0.5)) buf = Buffer(window, Cmp{}, filter);
            else buf = Buffer(va::SearchBufferConfig(window, capacity), Cmp{}, filter);
        } else if (how == 1) {
            if (window == capacity && r.chance(0.5)) buf.change_maxsize(window);
            else buf.change_maxsize(va::SearchBufferConfig(window, capacity));
            filter ? buf.enable_visited_set() : buf.disable_visited_set();
        } else if (how == 2) {
            buf.change_maxsize(va::SearchBufferConfig(window, capacity));
            filter ? buf.enable_visited_set() : buf.disable_visited_set();
            auto other = buf.shallow_copy();
            buf = std::move(other);
        } else { // same settings once more
            window = buf.config().get_search_window_size();
            capacity = buf.config().get_total_capacity();
            filter = buf.visited_set_enabled();
        }
        started = true;
        if (r.chance(0.1)) { // refused settings change nothing
            c.expect(throws([&] { va::SearchBufferConfig(window + 1 + r.below(5), window); }), "C20:config", "window above capacity accepted");
            if constexpr (Dynamic) c.expect(throws([&] { buf.change_maxsize(size_t(1) << 20); }), "C20:config", "capacity of 2^20 accepted");
        }
        c.expect(buf.config().get_search_window_size() == window && buf.config().get_total_capacity() == capacity, "C20:config", "config {}/{} instead of {}/{}", buf.config().get_search_window_size(), buf.config().get_total_capacity(), window, capacity);
        c.expect(buf.visited_set_enabled() == filter, "C20:config", "visited set enabled {}", !filter);
        buf.clear();
        c.expect(buf.done() && buf.size() == 0, "C20:clear", "not empty after clear");
        double pinvalid = Dynamic ? r.one_of<double>({0, 0.1, 0.5, 0.9}) : 0;
        size_t levels = r.one_of<size_t>({2, 8, 50, 100000});
        uint32_t next_id = r.below(1000);
        std::map<uint32_t, Offered> off;
        std::set<uint32_t> visited;
        std::vector<uint32_t> ids;
        auto draw = [&](bool again) -> Value {
            if (again && !ids.empty() && r.chance(0.2)) {
                auto id = r.pick(ids);
                if constexpr (Dynamic) return Value(id, off[id].d, off[id].valid);
                else return Value(id, off[id].d);
            }
            uint32_t id = next_id;
            next_id += 1 + r.below(3);
            float d = static_cast<float>(static_cast<double>(r.below(levels)) - levels / 3.0);
            bool valid = !r.chance(pinvalid);
            off[id] = {d, valid};
            ids.push_back(id);
            if constexpr (Dynamic) return Value(id, d, valid);
            else return Value(id, d);
        };
        auto ctx = fmt::format("{} {} window={} capacity={} levels={} invalid={}", Dynamic ? "dynamic" : "static", std::is_same_v<Cmp, std::less<>> ? "less" : "greater", window, capacity, levels, pinvalid);
        c.step("{}", ctx);
        c.distinct(fmt::format("{} {}", ctx, s));
        // Entry points: as many as always fit.
        size_t entries = r.chance(0.5) ? 1 : r.below(capacity + 1);
        for (size_t i = 0; i < entries; ++i) buf.push_back(draw(false));
        buf.sort();
        judge<Cmp>(c, ctx + " after entry points", contents<Dynamic>(buf), off, capacity, visited);
        size_t ops = 1 + r.below(r.chance(0.1) ? 400 : 60);
        double pnext = r.one_of<double>({0.1, 0.3, 0.6});
        for (size_t o = 0; o < ops && !c.failed; ++o) {
            auto before = contents<Dynamic>(buf);
            size_t w = window_of(before, window);
            size_t first = w;
            for (size_t i = 0; i < w; ++i)
                if (!before[i].visited) { first = i; break; }
            bool done = first == w;
            if (!c.expect(buf.done() == done, "C20:done", "{}: done()={} but {} of {} inside the window are expanded; op {}", ctx, buf.done(), first, w, o)) return;
            if (r.chance(pnext)) {
                if (done) continue;
                auto n = buf.next();
                c.obs("expansions");
                bool inside = false;
                for (size_t i = 0; i < w; ++i) inside |= before[i].id == n.id() && !before[i].visited && before[i].d == n.distance();
                c.expect(inside, "C20:next", "{}: {} handed out is not an unexpanded one inside the window", ctx, n.id());
                c.expect(!better<Cmp>(before[first].d, n.distance()), "C20:next-best", "{}: handed out {} at {} while {} at {} is waiting", ctx, n.id(), n.distance(), before[first].id, before[first].d);
                visited.insert(n.id());
                judge<Cmp>(c, ctx + " after next", contents<Dynamic>(buf), off, capacity, visited);
            } else {
                auto v = draw(true);
                bool skip = buf.can_skip(v.distance());
                bool present = false;
                for (auto& x : before) present |= x.id == v.id();
                size_t pos = buf.insert(v);
                auto after = contents<Dynamic>(buf);
                c.obs(skip ? "skipped_insertions" : "insertions");
                // Dropped ones may not return as unexpanded.
                judge<Cmp>(c, ctx + " after insert", after, off, capacity, visited);
                bool same = after.size() == before.size();
                for (size_t i = 0; same && i < after.size(); ++i) same = after[i].id == before[i].id;
                if (skip || present) c.expect(same, "C20:skip", "{}: contents changed by a candidate that is {}", ctx, present ? "already there" : "skippable");
                if (!same && pos < after.size()) c.expect(after[pos].id == v.id(), "C20:position", "{}: reported position {} holds {} not {}", ctx, pos, after[pos].id, v.id());
            }
            // Entries that left can come back only as ties; their flag starts anew.
            std::set<uint32_t> in;
            for (auto& x : contents<Dynamic>(buf)) in.insert(x.id);
            for (auto it = visited.begin(); it != visited.end();) in.count(*it) ? ++it : it = visited.erase(it);
        }
        if (c.failed) return;
        auto last = contents<Dynamic>(buf);
        if constexpr (Dynamic) {
            std::vector<Item> live;
            for (auto& x : last)
                if (x.valid) live.push_back(x);
            c.expect(buf.valid() == live.size(), "C20:valid", "{}: valid()={} but {} are", ctx, buf.valid(), live.size());
            c.expect(buf.full() == (live.size() == capacity), "C20:full", "{}: full()={}", ctx, buf.full());
            buf.cleanup();
            bool ok = buf.size() == live.size();
            for (size_t i = 0; ok && i < live.size(); ++i) ok = buf[i].id() == live[i].id && buf[i].distance() == live[i].d;
            c.expect(ok, "C20:cleanup", "{}: cleanup left {} of {} live ones", ctx, buf.size(), live.size());
        } else {
            c.expect(buf.size() == last.size() && buf.full() == (last.size() == capacity) && buf.capacity() == capacity, "C20:full", "{}: size {}", ctx, buf.size());
            auto v = buf.view();
            bool ok = v.size() == last.size();
            for (size_t i = 0; ok && i < v.size(); ++i) ok = v[i].id() == last[i].id && buf[i].id() == last[i].id;
            c.expect(ok, "C20:view", "{}: view differs", ctx);
            if (!last.empty()) c.expect(buf.back().id() == last.back().id, "C20:view", "{}: back() differs", ctx);
        }
    }
    c.sample("{} buffer, {} searches", Dynamic ? "dynamic" : "static", searches);
}
} // namespace

VH_SCENARIO(buffer_static, "C20 C14", 400, 20000) {
    c.rng.chance(0.5) ? buffer_case<false, std::less<>>(c) : buffer_case<false, std::greater<>>(c);
}
VH_SCENARIO(buffer_dynamic, "C20 C14", 500, 20000) {
    c.rng.chance(0.5) ? buffer_case<true, std::less<>>(c) : buffer_case<true, std::greater<>>(c);
}
// More deleted candidates than 16 bits can count.
VH_SCENARIO(buffer_dynamic_many, "C20 C14", 2, 20) {
    auto& r = c.rng;
    size_t window = 1 + r.below(20), n = 65500 + r.below(600);
    va::MutableBuffer<uint32_t> buf(window);
    buf.clear();
    using V = svs::PredicatedSearchNeighbor<uint32_t>;
    buf.push_back(V(0, 0.0f, false));
    buf.sort();
    size_t expanded = 0, inserted = 1;
    std::set<uint32_t> valid;
    // A chain: expanding one candidate discovers the next.
    while (!buf.done()) {
        auto x = buf.next();
        if (!c.expect(x.id() == expanded, "C20:many-next", "expansion {} handed out {}", expanded, x.id())) return;
        ++expanded;
        if (inserted < n + window + 50) {
            bool v = inserted >= n;
            if (v && valid.size() < window) valid.insert(inserted);
            buf.insert(V(inserted, static_cast<float>(inserted), v));
            ++inserted;
        }
        if (expanded > n + 2 * window + 100) break;
    }
    c.expect(expanded == n + window, "C20:many-done", "{} expansions, expected {}", expanded, n + window);
    buf.cleanup();
    bool ok = buf.size() == window;
    for (size_t i = 0; ok && i < window; ++i) ok = buf[i].id() == n + i;
    c.expect(ok, "C20:many-cleanup", "{} live ones left of {}", buf.size(), window);
    c.obs("expansions", expanded);
    c.distinct(n);
}
namespace {
template <size_t N> void filter_case(Case& c) {
    auto& r = c.rng;
    va::VisitedFilter<uint32_t, N> f;
    std::unordered_set<uint32_t> given;
    auto draw = [&]() -> uint32_t {
        uint32_t low = r.below(r.chance(0.5) ? 40 : size_t(1) << 18);
        if (r.chance(0.1)) return ~low;
        if (r.chance(0.1)) return 0xffff0000u | low;
        if (r.chance(0.3)) return low + (static_cast<uint32_t>(r.below(4)) << N);
        return r.chance(0.2) ? static_cast<uint32_t>(r()) : low;
    };
    for (size_t i = 0; i < 3000 && !c.failed; ++i) {
        auto id = draw();
        int op = r.below(1000);
        if (op == 0) {
            f.reset();
            given.clear();
        } else if (op < 500) {
            bool was = f.emplace(id);
            c.expect(!was || given.count(id), "C20:filter", "filter<{}>: claims to have seen {:#x} (emplace)", N, id);
            given.insert(id);
            c.obs(was ? "filter_hits" : "filter_insertions");
        } else {
            f.prefetch(id);
            bool was = f.contains(id);
            c.expect(!was || given.count(id), "C20:filter", "filter<{}>: claims to have seen {:#x}", N, id);
            c.obs(was ? "filter_hits" : "filter_misses");
        }
    }
    c.distinct(c.index());
}
} // namespace
VH_SCENARIO(visited_filter, "C20 C14", 60, 3000) {
    switch (c.rng.below(6)) {
        case 0: return filter_case<8>(c);
        case 1: return filter_case<14>(c);
        case 2: return filter_case<15>(c);
        case 3: return filter_case<17>(c);
        default: return filter_case<16>(c);
    }
}
// The same filter behind the buffers' interface.
VH_SCENARIO(visited_filter_buffers, "C20 C14", 40, 1000) {
    auto& r = c.rng;
    va::SearchBuffer<uint32_t> a(8);
    va::MutableBuffer<uint32_t> b(8);
    std::set<uint32_t> given;
    bool on = false;
    for (size_t i = 0; i < 500; ++i) {
        uint32_t id = r.below(300) << (r.chance(0.3) ? 14 : 0);
        if (r.chance(0.02)) {
            on = !on;
            if (on) a.enable_visited_set(), b.enable_visited_set();
            else a.disable_visited_set(), b.disable_visited_set();
            given.clear();
        }
        if (r.chance(0.02)) a.clear(), b.clear(), given.clear();
        a.prefetch_visited(id), b.prefetch_visited(id);
        c.expect(!a.is_visited(id) || (on && given.count(id)), "C20:filter", "static buffer claims {}", id);
        c.expect(!b.is_visited(id) || (on && given.count(id)), "C20:filter", "dynamic buffer claims {}", id);
        if (r.chance(0.5)) {
            c.expect(!a.emplace_visited(id) || (on && given.count(id)), "C20:filter", "static buffer claims {}", id);
            c.expect(!b.emplace_visited(id) || (on && given.count(id)), "C20:filter", "dynamic buffer claims {}", id);
            if (on) given.insert(id);
        }
    }
    c.distinct(c.index());
}

///// Pruning
namespace {
template <typename Dist> constexpr bool greater_is_better = std::is_same_v<typename Dist::compare, std::greater<>>;

template <typename T, typename Dist, typename Strategy, typename I> void prune_case(Case& c, const char* what) {
    auto& r = c.rng;
    size_t dims = 1 + r.below(r.chance(0.3) ? 40 : 6), n = 2 + r.below(r.chance(0.3) ? 120 : 25);
    bool lattice = r.chance(0.6); // exact arithmetic: small integer coordinates
    svs::data::SimpleData<T> data(n, dims);
    std::vector<T> row(dims);
    for (size_t i = 0; i < n; ++i) {
        if (i && r.chance(0.1)) {
            auto o = data.get_datum(r.below(i));
            std::copy(o.begin(), o.end(), row.begin());
        } else {
            for (auto& x : row) x = from_double<T>(lattice || std::is_integral_v<T> ? static_cast<double>(r.in(std::is_unsigned_v<T> ? 0 : -4, 6)) : r.normal());
            row[r.below(dims)] = from_double<T>(1);
        }
        data.set_datum(i, row);
    }
    Dist dist{};
    auto accessor = svs::data::GetDatumAccessor();
    auto cmp = svs::distance::comparator(dist);
    size_t v = r.below(n);
    bool has_self = r.chance(0.3);
    using N = svs::Neighbor<uint32_t>;
    std::vector<N> pool;
    svs::distance::maybe_fix_argument(dist, data.get_datum(v));
    double keep = r.uniform();
    for (size_t i = 0; i < n; ++i) {
        if (i == v ? !has_self : !r.chance(keep)) continue;
        pool.emplace_back(i, svs::distance::compute(dist, data.get_datum(v), data.get_datum(i)));
    }
    std::vector<N> shuffled = pool;
    r.shuffle(shuffled);
    pool = shuffled;
    std::stable_sort(pool.begin(), pool.end(), cmp);
    float alpha;
    if constexpr (greater_is_better<Dist>) alpha = r.one_of<float>({1.0f, 0.95f, 0.9f, 0.875f, 0.75f, 0.5f});
    else alpha = r.one_of<float>({1.0f, 1.0f, 1.1f, 1.2f, 1.25f, 1.5f, 2.0f, 4.0f});
    size_t max = r.chance(0.1) ? 0 : r.chance(0.4) ? n : 1 + r.below(12);
    std::vector<I> out;
    for (size_t i = r.below(5); i > 0; --i) { // what was there before must not matter
        uint32_t junk = r.below(n);
        if constexpr (std::integral<I>) out.push_back(junk);
        else out.push_back(I(junk, 0));
    }
    auto ctx = fmt::format("{} {} n={} dims={} pool={} alpha={} max={} vertex={}{}{}", what, tname<T>(), n, dims, pool.size(), alpha, max, v, has_self ? " (offered)" : "", lattice ? " lattice" : "");
    c.step("{}", ctx);
    c.distinct(ctx);
    va::heuristic_prune_neighbors(Strategy{}, max, alpha, data, accessor, dist, v, svs::lib::as_const_span(pool), out);

    std::vector<uint32_t> got;
    for (auto& x : out) {
        if constexpr (std::integral<I>) got.push_back(x);
        else got.push_back(x.id());
    }
    std::map<uint32_t, size_t> at;
    for (size_t i = 0; i < pool.size(); ++i) at[pool[i].id()] = i;
    std::set<uint32_t> chosen;
    for (auto id : got) {
        c.expect(id != v, "C24:self", "{}: the vertex itself was chosen", ctx);
        c.expect(at.count(id) > 0, "C24:foreign", "{}: {} was not offered", ctx, id);
        c.expect(chosen.insert(id).second, "C24:twice", "{}: {} chosen twice", ctx, id);
    }
    c.expect(got.size() <= max, "C24:size", "{}: {} chosen", ctx, got.size());
    if (c.failed) return;
    if constexpr (!std::integral<I>)
        for (auto& x : out) c.expect(x.distance() == pool[at[x.id()]].distance(), "C24:distance", "{}: distance of {} changed", ctx, x.id());
    size_t nearest = 0;
    while (nearest < pool.size() && pool[nearest].id() == v) ++nearest;
    if (max > 0 && nearest < pool.size()) c.expect(!got.empty() && got[0] == pool[nearest].id(), "C24:nearest", "{}: the nearest candidate {} was not kept", ctx, pool[nearest].id());

    // The rule, with every comparison that is too close to call noted.
    bool unclear = false;
    auto excludes = [&](double a, size_t s, size_t t) {
        Dist f{};
        svs::distance::maybe_fix_argument(f, data.get_datum(pool[s].id()));
        double djk = svs::distance::compute(f, data.get_datum(pool[s].id()), data.get_datum(pool[t].id()));
        double lhs = a * djk, rhs = pool[t].distance();
        if (lhs != rhs && std::abs(lhs - rhs) <= 2e-6 * std::max(std::abs(lhs), std::abs(rhs))) unclear = true;
        if (lhs == rhs && !lattice) unclear = true;
        if (std::is_same_v<Dist, svs::distance::DistanceCosineSimilarity> && std::abs(lhs - rhs) <= 1e-5) unclear = true;
        return cmp(static_cast<float>(lhs), static_cast<float>(rhs)) || (lhs != rhs && cmp(lhs, rhs));
    };
    constexpr bool single = std::is_same_v<Strategy, va::LegacyPruneStrategy>;
    constexpr bool forget = std::is_same_v<Strategy, va::IterativePruneStrategy>;
    std::vector<double> alphas;
    if (single) alphas = {alpha};
    else {
        float a = 1.0f; // rounds of growing relaxation, up to alpha
        while (!cmp(alpha, a)) {
            alphas.push_back(a);
            if (alpha == 1) break;
            a *= alpha;
        }
    }
    // A candidate is measured against the nearer ones kept so far: those of the same round
    // (iterative), or of all rounds. The progressive strategy may or may not go on measuring
    // a candidate that the present round has already excluded.
    auto rule = [&](bool measure_on) {
        std::vector<uint32_t> want;
        std::vector<int> round(pool.size(), -1);
        std::vector<std::vector<size_t>> against(pool.size());
        for (size_t k = 0; k < alphas.size(); ++k) {
            for (size_t t = 0; forget && t < pool.size(); ++t) against[t].clear();
            auto excluded = [&](size_t t) {
                for (auto s : against[t])
                    if (excludes(alphas[k], s, t)) return true;
                return false;
            };
            for (size_t s = 0; s < pool.size() && want.size() < max; ++s) {
                if (round[s] >= 0 || pool[s].id() == v || excluded(s)) continue;
                round[s] = k;
                want.push_back(pool[s].id());
                for (size_t t = s + 1; t < pool.size(); ++t)
                    if (measure_on || !excluded(t)) against[t].push_back(s);
            }
        }
        return std::set<uint32_t>(want.begin(), want.end());
    };
    auto ws = rule(true);
    if constexpr (!single && !forget) {
        if (ws != chosen) ws = rule(false);
    }
    c.obs("prunes");
    c.obs("candidates_kept", got.size());
    c.obs("candidates_offered", pool.size());
    if (unclear) {
        c.obs("prunes_too_close_to_call");
        return;
    }
    c.obs("prunes_judged_exactly");
    if (ws != chosen) {
        std::string diff;
        for (auto x : ws) if (!chosen.count(x)) diff += fmt::format(" -{}", x);
        for (auto x : chosen) if (!ws.count(x)) diff += fmt::format(" +{}", x);
        c.fail("C24:rule", "{}: kept {} instead of {}; differences:{}", ctx, got.size(), ws.size(), diff);
    }
    // Once more into a fresh list.
    std::vector<I> again;
    va::heuristic_prune_neighbors(Strategy{}, max, alpha, data, accessor, dist, v, svs::lib::as_const_span(pool), again);
    bool same = again.size() == out.size();
    for (size_t i = 0; same && i < out.size(); ++i) {
        if constexpr (std::integral<I>) same = again[i] == out[i];
        else same = again[i].id() == out[i].id();
    }
    c.expect(same, "C24:history", "{}: a second run chose otherwise", ctx);
}
template <typename T, typename I> void prune_types(Case& c) {
    using L2 = svs::distance::DistanceL2;
    using IP = svs::distance::DistanceIP;
    using Cos = svs::distance::DistanceCosineSimilarity;
    switch (c.rng.below(8)) {
        case 0: return prune_case<T, L2, va::prune_strategy_t<L2>, I>(c, "L2 default");
        case 1: return prune_case<T, L2, va::IterativePruneStrategy, I>(c, "L2 iterative");
        case 2: return prune_case<T, L2, va::LegacyPruneStrategy, I>(c, "L2 legacy");
        case 3: return prune_case<T, IP, va::prune_strategy_t<IP>, I>(c, "IP default");
        case 4: return prune_case<T, IP, va::LegacyPruneStrategy, I>(c, "IP legacy");
        case 5: return prune_case<T, Cos, va::prune_strategy_t<Cos>, I>(c, "cosine default");
        case 6: return prune_case<T, Cos, va::LegacyPruneStrategy, I>(c, "cosine legacy");
        default: return prune_case<T, L2, va::ProgressivePruneStrategy, I>(c, "L2 progressive");
    }
}
} // namespace
VH_SCENARIO(prune_float, "C24 C14", 800, 40000) {
    c.rng.chance(0.5) ? prune_types<float, uint32_t>(c) : prune_types<float, svs::Neighbor<uint32_t>>(c);
}
VH_SCENARIO(prune_other, "C24 C14", 600, 30000) {
    switch (c.rng.below(3)) {
        case 0: return prune_types<int8_t, uint32_t>(c);
        case 1: return prune_types<uint8_t, svs::Neighbor<uint32_t>>(c);
        default: return prune_types<svs::Float16, uint32_t>(c);
    }
}
