// Reference models for the containers: collections, arrays, views, graphs, allocators.
#pragma once
#include "gen.h"

#include "svs/core/allocator.h"
#include "svs/core/data.h"
#include "svs/core/data/view.h"
#include "svs/core/graph.h"
#include "svs/lib/array.h"
#include "svs/lib/memory.h"
#include "svs/lib/threads.h"

namespace ct {
using vh::Case;

// An allocator that checks its own use: every release must name a live block of this group with
// the size it was asked for. Blocks are painted so that stale reads show up.
struct Ledger {
    std::mutex m;
    std::map<void*, std::pair<size_t, int>> live; // size, owner
    std::vector<std::string> errors;
    uint64_t allocations = 0;
};
inline Ledger& ledger() {
    static Ledger l;
    return l;
}
template <typename T, bool Propagate, bool AlwaysEqual = false> struct Tracked {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<Propagate>;
    using propagate_on_container_move_assignment = std::bool_constant<Propagate>;
    using propagate_on_container_swap = std::bool_constant<Propagate>;
    using is_always_equal = std::bool_constant<AlwaysEqual>;
    int group = 0;
    Tracked() = default;
    explicit Tracked(int g)
        : group{g} {}
    template <typename U>
    Tracked(const Tracked<U, Propagate, AlwaysEqual>& o)
        : group{o.group} {}
    template <typename U> struct rebind { using other = Tracked<U, Propagate, AlwaysEqual>; };
    T* allocate(size_t n) {
        auto& l = ledger();
        void* p = ::operator new(std::max<size_t>(1, n * sizeof(T)), std::align_val_t(64));
        std::memset(p, 0xA5, n * sizeof(T));
        std::lock_guard g(l.m);
        l.live[p] = {n, group};
        ++l.allocations;
        return static_cast<T*>(p);
    }
    void deallocate(T* p, size_t n) noexcept {
        auto& l = ledger();
        {
            std::lock_guard g(l.m);
            auto it = l.live.find(p);
            if (it == l.live.end()) {
                l.errors.push_back("released a block that is not live");
                return;
            }
            if (it->second.first != n) l.errors.push_back(fmt::format("block of {} elements released as {}", it->second.first, n));
            if (!AlwaysEqual && it->second.second != group) l.errors.push_back(fmt::format("block of group {} released through group {}", it->second.second, group));
            l.live.erase(it);
        }
        std::memset(static_cast<void*>(p), 0xDD, n * sizeof(T));
        ::operator delete(static_cast<void*>(p), std::align_val_t(64));
    }
    template <typename U> void construct(U* p) { ::new (static_cast<void*>(p)) U; }
    template <typename U, typename... A> void construct(U* p, A&&... a) { ::new (static_cast<void*>(p)) U(std::forward<A>(a)...); }
    friend bool operator==(const Tracked& a, const Tracked& b) { return AlwaysEqual || a.group == b.group; }
};
struct LedgerScope {
    Case& c;
    explicit LedgerScope(Case& c_) : c{c_} {
        auto& l = ledger();
        l.live.clear();
        l.errors.clear();
    }
    ~LedgerScope() {
        auto& l = ledger();
        for (auto& e : l.errors) c.fail("allocator-misuse", "{}", e);
        c.expect(l.live.empty(), "leaked-blocks", "{} blocks were never released", l.live.size());
        c.obs("tracked-allocations", l.allocations);
        l.allocations = 0;
    }
};

/////
///// Collections
/////
template <typename T> struct RowModel {
    size_t dims = 0;
    std::vector<std::optional<std::vector<T>>> rows; // empty: never written
};
template <typename T> bool same_value(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

template <typename T> T any_value(vh::Rng& r) {
    if constexpr (std::is_integral_v<T>) {
        switch (r.below(6)) {
            case 0: return std::numeric_limits<T>::max();
            case 1: return std::numeric_limits<T>::min();
            default: return static_cast<T>(r());
        }
    } else if constexpr (std::is_same_v<T, svs::Float16>) {
        return svs::Float16(float(r.normal()) * 10);
    } else {
        switch (r.below(12)) {
            case 0: return std::numeric_limits<T>::max();
            case 1: return -std::numeric_limits<T>::denorm_min();
            case 2: return std::numeric_limits<T>::infinity();
            case 3: return T(-0.0);
            default: return static_cast<T>(r.normal() * 100);
        }
    }
}
template <typename T> std::vector<T> any_row(vh::Rng& r, size_t d) {
    std::vector<T> v(d);
    for (auto& x : v) x = any_value<T>(r);
    return v;
}

template <typename D> constexpr bool is_blocked = requires(const D& d) { d.num_blocks(); };

// Everything readable agrees with the model.
template <typename D, typename T>
bool agrees(Case& c, const char* when, const D& d, const RowModel<T>& m) {
    if (!c.expect(d.size() == m.rows.size(), "size", "{}: size {} should be {}", when, d.size(), m.rows.size())) return false;
    if (!c.expect(d.dimensions() == m.dims, "dimensions", "{}: dimensions {} should be {}", when, d.dimensions(), m.dims)) return false;
    if constexpr (requires { d.capacity(); }) {
        if (!c.expect(d.capacity() >= d.size(), "capacity", "{}: capacity {} below size {}", when, d.capacity(), d.size())) return false;
    }
    auto each = d.eachindex();
    if (!c.expect(each.size() == m.rows.size() && (each.empty() || (each.front() == 0 && each.back() + 1 == m.rows.size())), "eachindex", "{}: eachindex covers {}", when, each.size())) return false;
    for (size_t i = 0; i < m.rows.size(); ++i) {
        auto row = d.get_datum(i);
        if (!c.expect(row.size() == m.dims, "row-length", "{}: row {} has length {}", when, i, row.size())) return false;
        d.prefetch(i);
        if (!m.rows[i]) continue;
        for (size_t j = 0; j < m.dims; ++j) {
            if (!same_value<T>(row[j], (*m.rows[i])[j])) {
                c.fail("value", "{}: row {} component {} reads {} but {} was stored", when, i, j, vh::as_double(row[j]), vh::as_double((*m.rows[i])[j]));
                return false;
            }
        }
    }
    if constexpr (is_blocked<D>) {
        size_t bs = d.blocksize().value();
        if (!c.expect(d.capacity() == d.num_blocks() * bs && (d.size() > 0 || d.num_blocks() <= 1) && (d.size() == 0 || d.capacity() - d.size() < 2 * bs), "block-count", "{}: {} blocks of {} for {} rows", when, d.num_blocks(), bs, d.size())) return false;
        // rows of a block lie one after another
        for (size_t i = 0; i + 1 < m.rows.size(); ++i) {
            if (i / bs == (i + 1) / bs && d.get_datum(i).data() + m.dims != d.get_datum(i + 1).data()) {
                c.fail("layout", "{}: rows {} and {} are not adjacent", when, i, i + 1);
                return false;
            }
        }
    } else {
        for (size_t i = 0; i + 1 < m.rows.size(); ++i) {
            if (d.get_datum(i).data() + m.dims != d.get_datum(i + 1).data()) {
                c.fail("layout", "{}: rows {} and {} are not adjacent", when, i, i + 1);
                return false;
            }
        }
        auto v = d.cview();
        if (!c.expect(v.size() == d.size() && v.dimensions() == d.dimensions() && v.data() == d.data(), "view-shape", "{}: constant view differs", when)) return false;
    }
    c.obs("collection-comparisons");
    return true;
}

template <typename D, typename Make>
void collection(Case& c, size_t dims, Make make, svs::threads::NativeThreadPool& pool) {
    using T = typename D::element_type;
    auto& r = c.rng;
    LedgerScope scope(c);
    size_t n = r.chance(0.1) ? 0 : r.chance(0.2) ? 1 : r.below(120);
    auto d = std::make_unique<D>(make(n));
    RowModel<T> m;
    m.dims = dims;
    m.rows.resize(n);
    auto write = [&](size_t i) {
        // same type, or a type the element type can represent
        if (r.chance(0.6)) {
            auto row = any_row<T>(r, dims);
            if (r.chance(0.5)) d->set_datum(i, row);
            else d->set_datum(i, std::span<const T>(row));
            m.rows[i] = row;
        } else {
            std::vector<T> want(dims);
            auto put = [&](auto tag) {
                using U = decltype(tag);
                std::vector<U> row(dims);
                for (size_t j = 0; j < dims; ++j) {
                    int x = int(r.in(0, 100));
                    row[j] = vh::from_double<U>(x);
                    want[j] = vh::from_double<T>(x);
                }
                d->set_datum(i, std::span<const U>(row));
            };
            if constexpr (std::is_integral_v<T>) {
                switch (r.below(3)) {
                    case 0: put(int64_t()); break;
                    case 1: put(uint8_t()); break;
                    default: put(float()); break;
                }
            } else {
                switch (r.below(2)) {
                    case 0: put(float()); break;
                    default: put(uint8_t()); break;
                }
            }
            m.rows[i] = want;
        }
    };
    for (size_t i = 0; i < n; ++i) write(i);
    if (!agrees(c, "created", *d, m)) return;
    if (r.chance(0.5) && n > 0) {
        auto addr = reinterpret_cast<uintptr_t>(d->get_datum(0).data());
        if (!c.expect(addr % alignof(T) == 0, "alignment", "misaligned storage")) return;
    }
    size_t steps = 6 + r.below(20);
    std::string trace;
    for (size_t s = 0; s < steps; ++s) {
        n = m.rows.size();
        const char* what = "";
        switch (r.below(12)) {
            case 0:
            case 1:
                what = "write";
                for (size_t k = 0; n && k < 5; ++k) write(r.below(n));
                break;
            case 2: {
                what = "refused write";
                if (!n) continue;
                size_t bad = r.chance(0.5) ? dims + 1 + r.below(3) : dims - 1;
                auto row = any_row<T>(r, bad);
                size_t i = r.below(n);
                if (!c.expect(vh::throws([&] { d->set_datum(i, row); }), "accepted-wrong-length", "a row of length {} was accepted by a collection of dimension {}", bad, dims)) return;
                c.obs("refused-writes");
                break;
            }
            case 3:
            case 4: {
                if constexpr (requires { d->resize(size_t(1)); }) {
                    what = "grow";
                    size_t k = r.chance(0.3) ? r.below(3) : r.below(150);
                    d->resize(n + k);
                    m.rows.resize(n + k);
                    for (size_t i = n; i < n + k; ++i) {
                        if (r.chance(0.9)) write(i);
                    }
                }
                break;
            }
            case 5: {
                if constexpr (requires { d->resize(size_t(1)); }) {
                    what = "shrink";
                    size_t k = r.chance(0.1) ? 0 : r.below(n + 1);
                    d->resize(k);
                    m.rows.resize(k);
                    if (r.chance(0.5)) {
                        what = "shrink to fit";
                        d->shrink_to_fit();
                        if constexpr (!is_blocked<D>) {
                            if (!c.expect(d->capacity() == k, "shrink-to-fit", "capacity {} after shrinking to {}", d->capacity(), k)) return;
                        }
                    }
                }
                break;
            }
            case 6: {
                what = "copy";
                D other(*d);
                if (!agrees(c, "copy", other, m)) return;
                if (!c.expect(n == 0 || other.get_datum(0).data() != d->get_datum(0).data(), "copy-shares", "a copy shares its storage")) return;
                // Writing one does not show in the other.
                RowModel<T> before = m;
                for (size_t k = 0; n && k < 3; ++k) write(r.below(n));
                if (!agrees(c, "copy after writing the original", other, before)) return;
                break;
            }
            case 7: {
                what = "copy assignment";
                size_t k = r.below(60);
                D other = make(k);
                other = *d;
                if (!agrees(c, "copy-assigned", other, m)) return;
                RowModel<T> before = m;
                for (size_t i = 0; n && i < 3; ++i) write(r.below(n));
                if (!agrees(c, "assigned copy after writing the original", other, before)) return;
                if (r.chance(0.3)) {
                    auto& self = *d;
                    *d = self;
                    what = "self assignment";
                }
                break;
            }
            case 8: {
                what = "move";
                const void* p = n ? static_cast<const void*>(d->get_datum(0).data()) : nullptr;
                auto other = std::make_unique<D>(std::move(*d));
                if (!c.expect(!n || other->get_datum(0).data() == p, "move-copied", "move construction did not keep the storage")) return;
                d = std::move(other);
                break;
            }
            case 9: {
                what = "move assignment";
                D other = make(r.below(60));
                other = std::move(*d);
                if (!agrees(c, "move-assigned", other, m)) return;
                // the moved-from object can be given a new value
                *d = std::move(other);
                break;
            }
            case 10: {
                what = "compact";
                std::vector<uint32_t> keep;
                double p = r.chance(0.2) ? 1.0 : r.uniform();
                for (size_t i = 0; i < n; ++i) {
                    if (m.rows[i] && r.chance(p)) keep.push_back(uint32_t(i));
                }
                size_t batch = r.chance(0.3) ? 1 : r.chance(0.5) ? 1 + r.below(n + 3) : 1'000'000;
                if (n == 0 && !keep.empty()) continue;
                if (r.chance(0.5)) {
                    d->compact(svs::lib::as_const_span(keep), pool, batch);
                } else {
                    std::vector<size_t> wide(keep.begin(), keep.end());
                    d->compact(svs::lib::as_const_span(wide), batch);
                }
                for (size_t i = 0; i < keep.size(); ++i) m.rows[i] = m.rows[keep[i]];
                // Rows behind the kept ones still hold what they held.
                c.obs("compactions");
                if (r.chance(0.5)) {
                    if constexpr (requires { d->resize(size_t(1)); }) {
                        d->resize(keep.size());
                        m.rows.resize(keep.size());
                    }
                }
                break;
            }
            case 11: {
                if constexpr (requires { d->copy(); }) {
                    what = "copy()";
                    // copy() reads everything
                    for (size_t i = 0; i < n; ++i) if (!m.rows[i]) write(i);
                    auto other = d->copy();
                    if (!agrees(c, "copy()", other, m)) return;
                } else {
                    what = "writing view";
                    auto v = d->view();
                    if (!c.expect(v.size() == n && v.dimensions() == dims, "view-shape", "view has {}x{}", v.size(), v.dimensions())) return;
                    for (size_t k = 0; n && k < 4; ++k) {
                        size_t i = r.below(n);
                        auto row = any_row<T>(r, dims);
                        v.set_datum(i, row);
                        m.rows[i] = row;
                    }
                    // compare: equal to a copy, different after one change
                    bool full = std::all_of(m.rows.begin(), m.rows.end(), [](auto& x) { return bool(x); });
                    bool nan = false;
                    if constexpr (!std::is_integral_v<T>) {
                        for (auto& row : m.rows) if (row) for (auto x : *row) nan |= std::isnan(vh::as_double(x));
                    }
                    if (full && !nan) {
                        D other(*d);
                        if (!c.expect(other == *d, "equal", "a copy does not compare equal")) return;
                        if (n && dims) {
                            size_t i = r.below(n), j = r.below(dims);
                            auto row = *m.rows[i];
                            row[j] = vh::as_double(row[j]) == 1 ? vh::from_double<T>(2) : vh::from_double<T>(1);
                            other.set_datum(i, row);
                            if (!c.expect(!(other == *d), "unequal", "collections that differ at ({}, {}) compare equal", i, j)) return;
                        }
                    }
                }
                break;
            }
        }
        c.step("{} {}", what, m.rows.size());
        trace += what;
        if (!agrees(c, what, *d, m)) return;
        c.obs(std::string("op ") + (what[0] ? what : "none"));
    }
    c.distinct(vh::hash_str(trace) ^ vh::mix(dims * 1000 + m.rows.size()));
    c.sample("{} dims {} trace {}", vh::tname<T>(), dims, trace.substr(0, 120));
}

/////
///// Views over parts of a collection
/////
template <typename D> void views(Case& c, D d) {
    using T = typename D::element_type;
    auto& r = c.rng;
    size_t n = d.size(), dims = d.dimensions();
    std::vector<std::vector<T>> m;
    for (size_t i = 0; i < n; ++i) {
        m.push_back(any_row<T>(r, dims));
        d.set_datum(i, m.back());
    }
    auto check = [&](auto&& v, const std::vector<size_t>& ids) {
        if (!c.expect(v.size() == ids.size() && v.dimensions() == dims, "view-shape", "view of {} has {}x{}", ids.size(), v.size(), v.dimensions())) return false;
        if (!c.expect(v.eachindex().size() == ids.size(), "view-eachindex", "eachindex of a view is wrong")) return false;
        for (size_t i = 0; i < ids.size(); ++i) {
            auto row = v.get_datum(i);
            v.prefetch(i);
            if (!c.expect(v.parent_id(i) == ids[i], "view-parent", "entry {} of the view names {} instead of {}", i, v.parent_id(i), ids[i])) return false;
            for (size_t j = 0; j < dims; ++j) {
                if (!c.expect(same_value<T>(row[j], m[ids[i]][j]), "view-value", "view entry {} (row {}) reads another value", i, ids[i])) return false;
            }
        }
        c.obs("view-comparisons");
        return true;
    };
    for (int k = 0; k < 6; ++k) {
        bool range = r.chance(0.5);
        std::vector<size_t> ids;
        size_t a = r.below(n + 1), b = a + r.below(n + 1 - a);
        if (range) {
            for (size_t i = a; i < b; ++i) ids.push_back(i);
            auto v = svs::data::make_view(d, svs::threads::UnitRange<size_t>(a, b));
            if (!check(v, ids)) return;
            if (!check(svs::data::make_const_view(d, svs::threads::UnitRange<uint32_t>(uint32_t(a), uint32_t(b))), ids)) return;
        } else {
            for (size_t i = 0; n && i < r.below(20); ++i) ids.push_back(r.below(n));
            std::vector<uint32_t> idx(ids.begin(), ids.end());
            auto v = svs::data::make_view(d, idx);
            if (!check(v, ids)) return;
            if (!check(svs::data::make_view(std::as_const(d), ids), ids)) return;
            // writing through
            for (size_t i = 0; i < ids.size(); i += 2) {
                auto row = any_row<T>(r, dims);
                v.set_datum(i, row);
                m[ids[i]] = row;
            }
            if (!check(v, ids)) return;
            for (size_t i = 0; i < n; ++i) {
                auto row = d.get_datum(i);
                for (size_t j = 0; j < dims; ++j) {
                    if (!c.expect(same_value<T>(row[j], m[i][j]), "view-write", "writing through a view changed row {} wrongly", i)) return;
                }
            }
        }
        // out of range
        std::vector<size_t> bad(ids);
        bad.insert(bad.begin() + r.below(bad.size() + 1), n + r.below(3));
        if (!c.expect(vh::throws([&] { (void)svs::data::make_view(d, bad); }), "view-range", "a view naming row {} of {} was accepted", n, n)) return;
        if (!c.expect(vh::throws([&] { (void)svs::data::make_const_view(d, bad); }), "view-range", "a view naming row {} of {} was accepted", n, n)) return;
        if (!c.expect(vh::throws([&] { (void)svs::data::make_view(d, svs::threads::UnitRange<size_t>(a, n + 1 + r.below(3))); }), "view-range", "a view reaching beyond the collection was accepted")) return;
        std::vector<int32_t> neg(ids.begin(), ids.end());
        neg.insert(neg.begin() + r.below(neg.size() + 1), -1 - int(r.below(5)));
        if (!c.expect(vh::throws([&] { (void)svs::data::make_view(d, neg); }), "view-negative", "a view naming a negative row was accepted")) return;
        c.obs("views-refused", 4);
    }
    c.distinct(n * 131 + dims);
}

/////
///// Arrays
/////
template <typename T, typename A, typename... Dims>
void array_case(Case& c, const A& a1, const A& a2, Dims... dims) {
    using tuple = std::tuple<svs::canonical_form_t<Dims>...>;
    using Arr = svs::DenseArray<T, tuple, A>;
    constexpr size_t N = sizeof...(Dims);
    auto& r = c.rng;
    std::array<size_t, N> sz{static_cast<size_t>(svs::lib::as_integral(dims))...};
    size_t total = 1;
    for (auto s : sz) total *= s;
    std::array<size_t, N> stride;
    {
        size_t s = 1;
        for (size_t i = N; i-- > 0;) {
            stride[i] = s;
            s *= sz[i];
        }
    }
    auto fill = [&](Arr& a) {
        std::vector<T> m(total);
        for (size_t i = 0; i < total; ++i) {
            m[i] = any_value<T>(r);
            std::array<size_t, N> ix;
            for (size_t k = 0; k < N; ++k) ix[k] = (i / stride[k]) % sz[k];
            std::apply([&](auto... x) { a.at(x...) = m[i]; }, ix);
        }
        return m;
    };
    auto same = [&](const char* when, const Arr& a, const std::vector<T>& m) {
        bool ok = a.size() == total && a.bytes() == total * sizeof(T) && a.ndims() == N && a.dims() == sz && a.strides() == stride;
        if (!c.expect(ok, "array-shape", "{}: size {} of {}", when, a.size(), total)) return false;
        for (size_t i = 0; i < total; ++i) {
            std::array<size_t, N> ix;
            for (size_t k = 0; k < N; ++k) ix[k] = (i / stride[k]) % sz[k];
            auto [o, x] = std::apply([&](auto... y) { return std::pair{a.offset(y...), a.at(y...)}; }, ix);
            if (!c.expect(o == i, "array-offset", "{}: element {} is at offset {}", when, i, o)) return false;
            if (!c.expect(same_value<T>(x, m[i]) && same_value<T>(a.data()[i], m[i]) && same_value<T>(*(a.begin() + i), m[i]), "array-value", "{}: element {} of {} differs", when, i, total)) return false;
            if (ix[N - 1] == 0) {
                auto head = std::apply([&](auto... y) {
                    return [&]<size_t... K>(std::index_sequence<K...>) { auto t = std::tuple{y...}; return a.slice(std::get<K>(t)...); }(std::make_index_sequence<N - 1>());
                }, ix);
                if (!c.expect(head.size() == sz[N - 1] && head.data() == a.data() + i, "array-slice", "{}: slice at {} is wrong", when, i)) return false;
            }
        }
        if (total && !c.expect(same_value<T>(a.first(), m[0]) && same_value<T>(a.last(), m[total - 1]), "array-ends", "{}: first/last differ", when)) return false;
        auto v = a.cview();
        if (!c.expect(v.size() == total && v.data() == a.data(), "array-view", "{}: view differs", when)) return false;
        c.obs("array-comparisons");
        return true;
    };
    Arr a(tuple(dims...), a1);
    auto ma = fill(a);
    if (!same("filled", a, ma)) return;
    Arr b(a);
    if (!same("copied", b, ma)) return;
    auto mb = fill(b);
    if (!same("original of a written copy", a, ma) || !same("written copy", b, mb)) return;
    Arr d(tuple(dims...), a2);
    auto md = fill(d);
    d = a;
    if (!same("copy-assigned", d, ma)) return;
    md = fill(d);
    if (!same("source of a written copy", a, ma)) return;
    using tr = std::allocator_traits<A>;
    Arr e(std::move(a));
    if (!same("moved", e, ma)) return;
    Arr f(tuple(dims...), a2);
    fill(f);
    f = std::move(e);
    if (!same("move-assigned", f, ma)) return;
    e = f; // a moved-from array can be assigned to
    if (!same("assigned after a move", e, ma)) return;
    if constexpr (tr::propagate_on_container_swap::value || tr::is_always_equal::value) {
        using std::swap;
        swap(b, f);
        if (!same("swapped", b, ma) || !same("swapped", f, mb)) return;
    }
    if constexpr (N <= 2) {
        auto v = f.view();
        if (total) {
            T x = any_value<T>(r);
            std::array<size_t, N> z{};
            std::apply([&](auto... y) { v.at(y...) = x; }, z);
            auto& ref = *f.data();
            if (!c.expect(same_value<T>(ref, x), "array-view-write", "a write through a view is not seen")) return;
        }
    }
    Arr g;
    g = std::move(d);
    if (!same("moved into a default constructed array", g, md)) return;
    c.distinct(vh::hash_bytes(sz.data(), sizeof(sz)) ^ N);
}

/////
///// Graphs
/////
template <typename G> bool graph_agrees(Case& c, const char* when, const G& g, const std::vector<std::vector<typename G::index_type>>& m, size_t deg) {
    using I = typename G::index_type;
    if (!c.expect(g.n_nodes() == m.size() && g.max_degree() == deg, "graph-shape", "{}: {} nodes of degree {} should be {} of {}", when, g.n_nodes(), g.max_degree(), m.size(), deg)) return false;
    for (size_t i = 0; i < m.size(); ++i) {
        auto l = g.get_node(I(i));
        g.prefetch_node(I(i));
        std::vector<I> got(l.begin(), l.end());
        if (!c.expect(got.size() == m[i].size() && g.get_node_degree(I(i)) == m[i].size(), "graph-degree", "{}: node {} has {} neighbors, {} were stored", when, i, got.size(), m[i].size())) return false;
        // A neighbor set: the order is not promised.
        auto a = got, b = m[i];
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (!c.expect(a == b, "graph-neighbors", "{}: node {} lists {} instead of {}", when, i, vh::head(got), vh::head(m[i]))) return false;
    }
    c.obs("graph-comparisons");
    return true;
}
template <typename G, typename Make> void graph_case(Case& c, size_t n, size_t deg, Make make) {
    using I = typename G::index_type;
    auto& r = c.rng;
    LedgerScope scope(c);
    auto g = std::make_unique<G>(make(n, deg));
    std::vector<std::vector<I>> m(n);
    if (!graph_agrees(c, "new", *g, m, deg)) return;
    std::string trace;
    size_t steps = 60;
    for (size_t s = 0; s < steps; ++s) {
        n = m.size();
        const char* what = "";
        if (n == 0 && r.chance(0.5)) { if constexpr (!requires { g->unsafe_resize(size_t(1)); }) return; }
        switch (r.below(10)) {
            case 0: case 1: case 2: case 3: {
                what = "add_edge";
                for (size_t k = 0; n && k < 12; ++k) {
                    I a = I(r.below(n)), b = I(r.below(n));
                    auto& l = m[a];
                    bool has = std::find(l.begin(), l.end(), b) != l.end();
                    if (a != b && !has && l.size() < deg) l.push_back(b);
                    size_t got = g->add_edge(a, b);
                    if (!c.expect(got == l.size(), "add-edge-result", "adding {}->{} reports degree {} instead of {}", a, b, got, l.size())) return;
                    if (!c.expect(g->has_edge(a, b) == (std::find(l.begin(), l.end(), b) != l.end()), "has-edge", "has_edge({}, {}) is wrong", a, b)) return;
                }
                break;
            }
            case 4: case 5: {
                what = "replace_node";
                if (!n) continue;
                I a = I(r.below(n));
                size_t k = r.chance(0.3) ? deg + r.below(4) : r.below(deg + 1);
                std::vector<I> l;
                std::set<I> seen;
                for (size_t t = 0; t < 4 * k && l.size() < k; ++t) {
                    I x = I(r.below(n));
                    if (x != a && seen.insert(x).second) l.push_back(x);
                }
                if (r.chance(0.5)) g->replace_node(a, l); else g->replace_node(a, std::span<const I>(l));
                if (l.size() > deg) l.resize(deg);
                m[a] = l;
                auto got = g->get_node(a);
                if (!c.expect(std::equal(got.begin(), got.end(), l.begin(), l.end()), "replace-order", "replaced list of {} differs", a)) return;
                break;
            }
            case 6: {
                what = "clear_node";
                if (!n) continue;
                I a = I(r.below(n));
                g->clear_node(a);
                m[a].clear();
                break;
            }
            case 7: {
                if (r.chance(0.15)) {
                    what = "reset";
                    g->reset();
                    for (auto& l : m) l.clear();
                } else {
                    what = "refused edge";
                    if (!n) continue;
                    I a = I(r.below(n));
                    I b = I(std::min<size_t>(std::numeric_limits<I>::max(), n + r.below(3)));
                    if (b < n) continue;
                    if (!c.expect(vh::throws([&] { g->add_edge(a, b); }), "accepted-far-edge", "an edge to {} of {} was accepted", b, n)) return;
                    c.obs("refused-edges");
                }
                break;
            }
            case 8: {
                if constexpr (requires { g->unsafe_resize(size_t(1)); }) {
                    what = "resize";
                    size_t limit = std::min<size_t>(300, std::numeric_limits<I>::max());
                    size_t k = r.chance(0.5) ? r.below(n + 1) : n + r.below(limit - std::min(n, limit) + 1);
                    if (k == n + 1 && r.chance(0.5)) g->add_node(); else g->unsafe_resize(k);
                    // Lists of new nodes are not initialised.
                    for (size_t i = n; i < k; ++i) g->clear_node(I(i));
                    m.resize(k);
                    // Neighbors that no longer exist may stay listed.
                }
                break;
            }
            case 9: {
                what = "copy";
                G other(*g);
                if (!graph_agrees(c, "copy", other, m, deg)) return;
                if (!c.expect(svs::graphs::graphs_equal(*g, other), "graph-equal", "a copy is not equal")) return;
                if (n) {
                    I a = I(r.below(n));
                    auto l = m[a];
                    bool changed = false;
                    if (!l.empty()) { l.pop_back(); changed = true; }
                    other.replace_node(a, l);
                    if (!c.expect(svs::graphs::graphs_equal(*g, other) == !changed, "graph-unequal", "graphs that differ in node {} compare equal", a)) return;
                }
                if (r.chance(0.5)) {
                    auto moved = std::make_unique<G>(std::move(*g));
                    g = std::move(moved);
                    what = "move";
                }
                break;
            }
        }
        trace += what;
        c.step("{} {}", what, m.size());
        if (!graph_agrees(c, what, *g, m, deg)) return;
    }
    c.distinct(vh::hash_str(trace) ^ deg);
    c.sample("graph degree {} trace {}", deg, trace.substr(0, 100));
}
} // namespace ct
