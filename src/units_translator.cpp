// C15: the id translation mirrored by a reference bijection.
#include "gen.h"
#include "svs/core/translation.h"
#include "svs/lib/saveload.h"

#include <list>

namespace {
using vh::Case;
using Tr = svs::IDTranslator;

struct Model {
    std::map<uint64_t, uint32_t> e2i;
    std::map<uint32_t, uint64_t> i2e;
    bool operator==(const Model&) const = default;
};

// Everything observable about the translator against the reference. Nothing is changed.
bool same(Case& c, const Tr& t, const Model& m, const std::vector<uint64_t>& probe_e, const std::vector<uint32_t>& probe_i, const char* after) {
    bool ok = c.expect(t.size() == m.e2i.size(), "size", "after {}: size {} expected {}", after, t.size(), m.e2i.size());
    size_t n = 0;
    std::set<uint64_t> seen;
    for (auto& p : t) {
        ++n;
        auto it = m.e2i.find(p.first);
        ok &= c.expect(it != m.e2i.end() && it->second == p.second, "iteration", "after {}: iteration yields ({}, {}) which is not a current pair", after, p.first, p.second);
        ok &= c.expect(seen.insert(p.first).second, "iteration-repeat", "after {}: iteration yields {} twice", after, p.first);
        if (!ok) return false;
    }
    ok &= c.expect(n == m.e2i.size(), "iteration-count", "after {}: iteration yields {} of {} pairs", after, n, m.e2i.size());
    for (auto& [e, i] : m.e2i) {
        ok &= c.expect(t.has_external(e) && t.get_internal(e) == i, "forward", "after {}: external {} does not map to {}", after, e, i);
        ok &= c.expect(t.has_internal(i) && t.get_external(i) == e, "backward", "after {}: internal {} does not map to {}", after, i, e);
        if (!ok) return false;
    }
    for (auto e : probe_e) {
        bool has = m.e2i.count(e) != 0;
        ok &= c.expect(t.has_external(e) == has, "has-external", "after {}: has_external({}) is {}", after, e, !has);
        if (!has) {
            ok &= c.expect(vh::throws([&] { (void)t.get_internal(e); }), "unknown-external-translated", "after {}: get_internal({}) answered", after, e);
        }
    }
    for (auto i : probe_i) {
        bool has = m.i2e.count(i) != 0;
        ok &= c.expect(t.has_internal(i) == has, "has-internal", "after {}: has_internal({}) is {}", after, i, !has);
        if (!has) {
            ok &= c.expect(vh::throws([&] { (void)t.get_external(i); }), "unknown-internal-translated", "after {}: get_external({}) answered", after, i);
        }
    }
    return ok;
}

template <typename To, typename From> bool fits(const std::vector<From>& v) {
    for (auto x : v) {
        if (static_cast<From>(static_cast<To>(x)) != x || (static_cast<To>(x) < 0) != (x < 0)) return false;
    }
    return true;
}
template <typename C, typename From> C conv(const std::vector<From>& v) {
    C r;
    for (auto x : v) r.push_back(static_cast<typename C::value_type>(x));
    return r;
}

// Hand a request to the translator through one of several container types.
template <typename F> void with_container(vh::Rng& r, const std::vector<uint64_t>& v, F&& f) {
    switch (r.below(5)) {
        case 0: f(v); return;
        case 1:
            if (fits<int64_t>(v)) { f(conv<std::vector<int64_t>>(v)); return; }
            break;
        case 2:
            if (fits<uint32_t>(v)) { f(conv<std::vector<uint32_t>>(v)); return; }
            break;
        case 3: f(conv<std::list<uint64_t>>(v)); return;
        case 4:
            if (fits<int32_t>(v)) { f(conv<std::vector<int32_t>>(v)); return; }
            break;
    }
    f(v);
}

// Requests arrive in any order: shuffled, ascending or descending.
template <typename T> void arrange(vh::Rng& r, std::vector<T>& v) {
    switch (r.below(5)) {
        case 0: case 1: std::sort(v.begin(), v.end()); break;
        case 2: std::sort(v.rbegin(), v.rend()); break;
        default: break;
    }
}

// Which internal ids are in range when given as wide integers.
const uint64_t WIDE = uint64_t(1) << 32;

void history(Case& c, size_t range_e, size_t range_i, size_t steps, size_t maxbatch) {
    auto& r = c.rng;
    Tr t;
    Model m;
    if (r.chance(0.3)) {
        size_t n = r.below(maxbatch * 2 + 1);
        t = Tr(Tr::Identity(n));
        for (size_t i = 0; i < n; ++i) { m.e2i[i] = i; m.i2e[i] = i; }
        c.obs("identity");
    }
    bool spread = r.chance(0.4);
    auto ext = [&]() -> uint64_t {
        uint64_t x = r.below(range_e);
        // Ids that differ only in their upper halves, or sit at the ends of the range.
        if (spread) {
            switch (x % 4) {
                case 0: return x;
                case 1: return (x << 32) | 1;
                case 2: return ~uint64_t(0) - x;
                default: return x << 33;
            }
        }
        return x;
    };
    auto intr = [&]() -> uint64_t {
        uint64_t x = r.below(range_i);
        return spread && x % 3 == 0 ? (WIDE - 1 - x) : x;
    };
    for (size_t s = 0; s < steps; ++s) {
        std::vector<uint64_t> pe;
        std::vector<uint32_t> pi;
        for (int i = 0; i < 6; ++i) {
            pe.push_back(ext());
            pi.push_back(uint32_t(intr()));
        }
        size_t n = r.below(maxbatch + 1);
        auto op = r.below(100);
        const char* what = "";
        if (op < 34) {
            // legal insertion
            what = "insert";
            std::set<uint64_t> es, is;
            std::vector<uint64_t> e, i;
            // Often a run of consecutive ids, as applications assign them.
            bool run = r.chance(0.3);
            uint64_t ea = ext(), ia = intr();
            for (size_t k = 0; k < n; ++k) {
                auto a = run ? ea + k : ext(), b = run ? (ia + k) % WIDE : intr();
                if (m.e2i.count(a) || m.i2e.count(uint32_t(b)) || es.count(a) || is.count(b)) continue;
                es.insert(a); is.insert(b);
                e.push_back(a); i.push_back(b);
            }
            arrange(r, e); arrange(r, i);
            c.step("insert {}", e.size());
            bool check = r.chance(0.8);
            with_container(r, e, [&](const auto& ce) { with_container(r, i, [&](const auto& ci) { t.insert(ce, ci, check); }); });
            for (size_t k = 0; k < e.size(); ++k) { m.e2i[e[k]] = uint32_t(i[k]); m.i2e[uint32_t(i[k])] = e[k]; }
            pe.insert(pe.end(), e.begin(), e.end());
            c.obs("pairs-inserted", e.size());
        } else if (op < 54) {
            // insertion that must be refused
            what = "refused insert";
            std::set<uint64_t> es, is;
            std::vector<uint64_t> e, i;
            // Often a run of consecutive ids, as applications assign them.
            bool run = r.chance(0.3);
            uint64_t ea = ext(), ia = intr();
            for (size_t k = 0; k < n + 2; ++k) {
                auto a = run ? ea + k : ext(), b = run ? (ia + k) % WIDE : intr();
                if (m.e2i.count(a) || m.i2e.count(uint32_t(b)) || es.count(a) || is.count(b)) continue;
                es.insert(a); is.insert(b);
                e.push_back(a); i.push_back(b);
            }
            std::string kind;
            size_t k = e.size();
            switch (r.below(7)) {
                case 0: if (k >= 2) { kind = "repeated-external"; size_t x = r.below(k), y = (x + 1 + r.below(k - 1)) % k; e[x] = e[y]; } break;
                case 1: if (k >= 2) { kind = "repeated-internal"; size_t x = r.below(k), y = (x + 1 + r.below(k - 1)) % k; i[x] = i[y]; } break;
                case 2: if (k >= 1 && !m.e2i.empty()) { kind = "known-external"; auto it = m.e2i.begin(); std::advance(it, r.below(m.e2i.size())); e[r.below(k)] = it->first; } break;
                case 3: if (k >= 1 && !m.i2e.empty()) { kind = "known-internal"; auto it = m.i2e.begin(); std::advance(it, r.below(m.i2e.size())); i[r.below(k)] = it->first; } break;
                case 4: if (k >= 1) { kind = "more-internal"; e.erase(e.begin() + r.below(k)); } break;
                case 5: if (k >= 1) { kind = "more-external"; i.pop_back(); } break;
                case 6: if (k >= 1) { kind = "wide-internal"; i[r.below(k)] += WIDE * r.in(1, 3); } break;
            }
            if (kind.empty()) continue;
            arrange(r, e); arrange(r, i);
            what = "refused insert";
            c.step("refused insert {} {}", kind, k);
            bool threw = vh::throws([&] { with_container(r, e, [&](const auto& ce) { with_container(r, i, [&](const auto& ci) { t.insert(ce, ci); }); }); });
            if (!c.expect(threw, "accepted-" + kind, "insertion with {} ({} pairs) was accepted", kind, k)) return;
            pe.insert(pe.end(), e.begin(), e.end());
            c.obs("refused-" + kind);
        } else if (op < 58) {
            what = "insert of a negative id";
            std::vector<int64_t> e{-int64_t(1 + r.below(50))};
            uint64_t i = intr();
            if (m.i2e.count(uint32_t(i))) continue;
            std::vector<uint64_t> is{i};
            if (!c.expect(vh::throws([&] { t.insert(e, is); }), "accepted-negative-external", "a negative external id was accepted")) return;
            pi.push_back(uint32_t(i));
            c.obs("refused-negative");
        } else if (op < 72) {
            // deletion
            bool by_e = r.chance(0.5);
            std::vector<uint64_t> d;
            for (auto& [e, i] : m.e2i) {
                if (d.size() < n && r.chance(double(n) / (1.0 + m.e2i.size()))) d.push_back(by_e ? e : i);
            }
            r.shuffle(d);
            arrange(r, d);
            what = by_e ? "delete_external" : "delete_internal";
            c.step("{} {}", what, d.size());
            bool check = r.chance(0.8);
            with_container(r, d, [&](const auto& cd) {
                if (by_e) t.delete_external(cd, check); else t.delete_internal(cd, check);
            });
            for (auto x : d) {
                if (by_e) { m.i2e.erase(m.e2i[x]); m.e2i.erase(x); pe.push_back(x); }
                else { m.e2i.erase(m.i2e[uint32_t(x)]); m.i2e.erase(uint32_t(x)); pi.push_back(uint32_t(x)); }
            }
            c.obs("pairs-deleted", d.size());
        } else if (op < 86) {
            // deletion that must be refused
            bool by_e = r.chance(0.5);
            std::vector<uint64_t> d;
            for (auto& [e, i] : m.e2i) {
                if (d.size() < n && r.chance(0.3)) d.push_back(by_e ? e : i);
            }
            r.shuffle(d);
            std::string kind = "unknown";
            if (r.chance(0.3) && !d.empty()) {
                kind = "repeated";
                d.insert(d.begin() + r.below(d.size() + 1), d[r.below(d.size())]);
            } else if (!by_e && r.chance(0.4) && !m.i2e.empty()) {
                // an id that is unknown but shares its lower half with a known one
                kind = "wide";
                auto it = m.i2e.begin();
                std::advance(it, r.below(m.i2e.size()));
                std::erase(d, uint64_t(it->first));
                d.insert(d.begin() + r.below(d.size() + 1), it->first + WIDE * r.in(1, 3));
            } else {
                uint64_t x = by_e ? ext() : intr();
                if (by_e ? m.e2i.count(x) : m.i2e.count(uint32_t(x))) continue;
                d.insert(d.begin() + r.below(d.size() + 1), x);
            }
            arrange(r, d);
            what = by_e ? "refused delete_external" : "refused delete_internal";
            c.step("{} {} {}", what, kind, d.size());
            bool threw = vh::throws([&] {
                with_container(r, d, [&](const auto& cd) {
                    if (by_e) t.delete_external(cd); else t.delete_internal(cd);
                });
            });
            if (!c.expect(threw, std::string("accepted-delete-") + kind + (by_e ? "-external" : "-internal"), "deletion of {} ids was accepted", kind)) return;
            c.obs("refused-delete-" + kind);
        } else if (op < 94) {
            if (m.i2e.empty()) continue;
            auto it = m.i2e.begin();
            std::advance(it, r.below(m.i2e.size()));
            uint32_t from = it->first, to = uint32_t(intr());
            if (m.i2e.count(to)) continue;
            what = "remap_internal_id";
            t.remap_internal_id(from, to);
            auto e = it->second;
            m.i2e.erase(from);
            m.i2e[to] = e;
            m.e2i[e] = to;
            pi.push_back(from);
            pi.push_back(to);
            c.obs("remaps");
        } else if (op < 97) {
            what = "save and load";
            auto dir = c.scratch() / ("t" + std::to_string(s));
            svs::lib::save_to_disk(t, dir);
            Tr u = svs::lib::load_from_disk<Tr>(dir);
            if (!same(c, u, m, pe, pi, "reload")) return;
            if (r.chance(0.5)) t = std::move(u);
            std::filesystem::remove_all(dir);
            c.obs("reloads");
        } else {
            what = "copy";
            Tr u = t;
            if (!same(c, u, m, pe, pi, "copy")) return;
            if (m.e2i.size()) {
                // independent
                auto e = m.e2i.begin()->first;
                u.delete_external(std::vector<uint64_t>{e});
                c.expect(!u.has_external(e), "copy-delete", "deleted id {} still known", e);
            }
            c.obs("copies");
        }
        if (!same(c, t, m, pe, pi, what)) return;
    }
    c.obs("pairs-held", m.e2i.size());
    c.distinct(vh::hash_str(fmt::format("{} {} {}", m.e2i.size(), range_e, m.e2i.empty() ? 0 : m.e2i.begin()->first)));
    c.sample("{} steps over {} external and {} internal ids, {} pairs at the end", steps, range_e, range_i, m.e2i.size());
}

VH_SCENARIO(translator_dense, "C15 C14", 150, 6000) { history(c, 12, 12, 120, 5); }
VH_SCENARIO(translator_sparse, "C15 C14", 80, 3000) { history(c, 60 + c.rng.below(400), 60 + c.rng.below(400), 150, 40); }
VH_SCENARIO(translator_large, "C15 C14", 4, 60) { history(c, 20000, 20000, 25, 4000); }
} // namespace
