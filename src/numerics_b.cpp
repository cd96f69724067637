// Names, versions, identifiers and the small helpers (C11).
#include "gen.h"

#include "svs/lib/algorithms.h"
#include "svs/lib/datatype.h"
#include "svs/lib/meta.h"
#include "svs/lib/misc.h"
#include "svs/lib/neighbor.h"
#include "svs/lib/range.h"
#include "svs/lib/static.h"
#include "svs/lib/uuid.h"
#include "svs/lib/version.h"

using namespace vh;
namespace lib = svs::lib;

template <svs::DataType V, typename T> static void one_type(Case& c, const char* nm) {
    static_assert(std::is_same_v<svs::cpp_type_t<V>, T>);
    c.expect(svs::datatype_v<T> == V && svs::datatype_v<const T&> == V, "C11:datatype", "{} has the wrong enum", nm);
    c.expect(svs::name(V) == nm && svs::name<V>() == nm, "C11:datatype", "{} is called {}", nm, svs::name(V));
    c.expect(svs::parse_datatype(nm) == V, "C11:datatype", "{} parses as {}", nm, svs::name(svs::parse_datatype(nm)));
    c.expect(svs::element_size(V) == sizeof(T), "C11:datatype", "{} has size {}", nm, svs::element_size(V));
    // The erased pointer hands the address back under this type only.
    T x{};
    svs::ConstErasedPointer p(&x);
    c.expect(p.type() == V && svs::get<T>(p) == &x, "C11:erased", "{}: wrong pointer", nm);
    auto arr = svs::AnonymousArray<2>(&x, size_t(3), size_t(5));
    c.expect(arr.type() == V && arr.size(0) == 3 && arr.size(1) == 5 && svs::get<T>(arr) == &x, "C11:erased", "{}: wrong array", nm);
    auto refuse = [&]<typename W>(const W*) {
        if constexpr (!std::is_same_v<W, T>) {
            c.expect(throws([&] { (void)svs::get<W>(p); }) && throws([&] { (void)svs::get<W>(arr); }), "C11:erased-mismatch", "{} handed out as {}", nm, svs::name(svs::datatype_v<W>));
            c.obs("mismatches_refused");
        }
    };
    refuse((int8_t*)0), refuse((uint8_t*)0), refuse((int16_t*)0), refuse((uint16_t*)0), refuse((int32_t*)0), refuse((uint32_t*)0);
    refuse((int64_t*)0), refuse((uint64_t*)0), refuse((float*)0), refuse((double*)0), refuse((svs::Float16*)0), refuse((std::byte*)0);
    // Dispatch on the runtime type.
    using All = lib::Types<int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, float, double, svs::Float16>;
    if constexpr (!std::is_same_v<T, std::byte>) {
        int calls = 0;
        auto got = lib::match(All{}, V, [&]<typename W>(lib::Type<W>) { ++calls; return svs::datatype_v<W>; });
        c.expect(got == V && calls == 1, "C11:match", "{}: matched {} ({} calls)", nm, svs::name(got), calls);
        c.expect(lib::in(V, All{}) && lib::in<T>(All{}), "C11:in", "{} not found", nm);
    } else {
        c.expect(throws([&] { lib::match(All{}, V, [&]<typename W>(lib::Type<W>) { return 0; }); }), "C11:match", "{} matched", nm);
        c.expect(!lib::in(V, All{}) && !lib::in<T>(All{}), "C11:in", "{} found", nm);
    }
}
VH_SCENARIO(datatypes, "C11 C14", 20, 200) {
    using D = svs::DataType;
    auto& r = c.rng;
    one_type<D::uint8, uint8_t>(c, "uint8");
    one_type<D::uint16, uint16_t>(c, "uint16");
    one_type<D::uint32, uint32_t>(c, "uint32");
    one_type<D::uint64, uint64_t>(c, "uint64");
    one_type<D::int8, int8_t>(c, "int8");
    one_type<D::int16, int16_t>(c, "int16");
    one_type<D::int32, int32_t>(c, "int32");
    one_type<D::int64, int64_t>(c, "int64");
    one_type<D::float16, svs::Float16>(c, "float16");
    one_type<D::float32, float>(c, "float32");
    one_type<D::float64, double>(c, "float64");
    one_type<D::byte, std::byte>(c, "byte");
    c.expect(svs::name(D::undef) == "undef" && svs::parse_datatype("undef") == D::undef && svs::element_size(D::undef) == 0, "C11:datatype", "undef");
    c.expect(throws([] { (void)svs::name(static_cast<D>(77)); }) && throws([] { (void)svs::element_size(static_cast<D>(77)); }), "C11:datatype", "an unknown enum has a name");
    // Anything else is not a type.
    std::vector<std::string> names{"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float16", "float32", "float64", "byte"};
    for (int i = 0; i < 500; ++i) {
        auto s = r.pick(names);
        switch (r.below(5)) {
            case 0: s += char('0' + r.below(10)); break;
            case 1: s = s.substr(0, r.below(s.size())); break;
            case 2: s[r.below(s.size())] = char(32 + r.below(95)); break;
            case 3: s = " " + s; break;
            case 4: s += std::string(1, '\0'); break;
        }
        bool known = std::find(names.begin(), names.end(), s) != names.end();
        c.expect(known == (svs::parse_datatype(s) != D::undef), "C11:datatype-malformed", "\"{}\" parses as {}", s, svs::name(svs::parse_datatype(s)));
    }
    c.distinct(fmt::format("{}", c.index()));
}

VH_SCENARIO(versions, "C11 C14", 40, 2000) {
    auto& r = c.rng;
    auto part = [&]() -> size_t { return r.chance(0.5) ? r.below(12) : r() >> r.below(64); };
    for (int i = 0; i < 200; ++i) {
        lib::Version v(part(), part(), part()), w(part(), part(), part());
        if (r.chance(0.3)) w.major = v.major;
        if (r.chance(0.3)) w.major = v.major, w.minor = v.minor;
        auto s = v.str();
        c.expect(s == "v" + std::to_string(v.major) + "." + std::to_string(v.minor) + "." + std::to_string(v.patch), "C11:version-text", "{}", s);
        c.expect(lib::Version(s) == v, "C11:version-roundtrip", "{} comes back as {}", s, lib::Version(s).str());
        auto tv = std::tuple(v.major, v.minor, v.patch), tw = std::tuple(w.major, w.minor, w.patch);
        c.expect((v < w) == (tv < tw) && (v > w) == (tv > tw) && (v <= w) == (tv <= tw) && (v >= w) == (tv >= tw) && (v == w) == (tv == tw), "C11:version-order", "{} {}", s, w.str());
        // Malformed text is refused.
        auto digits = [&] { return std::to_string(part()); };
        std::string a = digits(), b = digits(), d = digits();
        std::string bad = r.one_of<std::string>({a + "." + b + "." + d, "v" + a + "." + b, "v" + a, "v" + a + "." + b + ".", "v." + a + "." + b, "v" + a + ".." + b, "", "v", "V" + s.substr(1), s + "x", s + ".1", s + " ", "v" + a + "x." + b + "." + d, "v" + a + "." + b + "y." + d, " " + s, "v-" + s.substr(1), "v+" + s.substr(1), "v" + a + "." + b + ".-1", "v" + a + "." + b + ".99999999999999999999999", "v0x1.2.3", "v" + a + "," + b + "," + d, s + "-rc1"});
        std::string what;
        c.expect(throws([&] { lib::Version x(bad); what = x.str(); }), "C11:version-malformed", "\"{}\" accepted as {}", bad, what);
        // Integer text.
        auto x = int64_t(r() >> r.below(64));
        if (r.chance(0.5)) x = -x;
        c.expect(lib::parse_int<int64_t>(std::to_string(x)) == x, "C11:parse-int", "{}", x);
        c.expect(lib::parse_int<size_t>(std::to_string(uint64_t(x))) == uint64_t(x), "C11:parse-int", "{}", uint64_t(x));
        for (const auto& t : {std::string(""), std::string("x1"), std::to_string(x) + "z", std::string("99999999999999999999999"), std::string(" 1"), std::string("1 ")})
            c.expect(throws([&] { (void)lib::parse_int<int64_t>(t); }), "C11:parse-int-malformed", "\"{}\" accepted", t);
        c.expect(throws([&] { (void)lib::parse_int<uint8_t>("256"); }) && throws([&] { (void)lib::parse_int<int8_t>("-129"); }) && throws([&] { (void)lib::parse_int<size_t>("-1"); }), "C11:parse-int-range", "out of range accepted");
        c.obs("versions");
    }
    c.distinct(fmt::format("{}", c.index()));
}

VH_SCENARIO(uuids, "C11 C14", 40, 2000) {
    auto& r = c.rng;
    std::set<std::string> seen;
    for (int i = 0; i < 60; ++i) {
        std::array<uint8_t, 16> raw;
        for (auto& x : raw) x = r();
        lib::UUID u(raw);
        auto s = u.str();
        // Byte i of the text is stored at the mirrored position.
        std::string want;
        for (int k = 0; k < 16; ++k) {
            want += fmt::format("{:02x}", raw[15 - k]);
            if (k == 3 || k == 5 || k == 7 || k == 9) want += '-';
        }
        c.expect(s == want, "C11:uuid-text", "{} instead of {}", s, want);
        c.expect(lib::UUID(s) == u && lib::UUID(s).raw() == raw, "C11:uuid-roundtrip", "{}", s);
        auto up = s;
        for (auto& ch : up) ch = std::toupper(ch);
        c.expect(lib::UUID(up) == u, "C11:uuid-upper", "{}", up);
        auto other = raw;
        other[r.below(16)] ^= uint8_t(1) << r.below(8);
        c.expect(!(lib::UUID(other) == u) && lib::UUID(other).str() != s, "C11:uuid-equal", "{} equals a different one", s);
        // Malformed ones.
        auto bad = s;
        auto pos = r.below(bad.size());
        switch (r.below(4)) {
            case 0: bad.erase(pos, 1); break;
            case 1: bad.insert(pos, 1, 'a'); break;
            case 2: bad[pos] = r.one_of({'g', 'G', ' ', '/', ':', '@', '`', '\0', 'z', '\x80', '_'}); break;
            case 3: { // misplaced hyphen
                bad[r.one_of({8, 13, 18, 23})] = '0';
                break;
            }
        }
        c.expect(throws([&] { (void)lib::UUID(bad); }), "C11:uuid-malformed", "\"{}\" accepted", bad);
        lib::UUID fresh;
        auto t = fresh.str();
        c.expect(t[14] == '4' && (t[19] == '8' || t[19] == '9' || t[19] == 'a' || t[19] == 'b'), "C11:uuid-version", "{}", t);
        c.expect(seen.insert(t).second, "C11:uuid-unique", "{} twice", t);
        c.obs("uuids");
    }
    c.expect(lib::ZeroUUID.str() == "00000000-0000-0000-0000-000000000000", "C11:uuid-zero", "{}", lib::ZeroUUID.str());
    for (int ch = 0; ch < 256; ++ch) {
        bool hex = std::isxdigit(ch) && ch < 128;
        bool threw = throws([&] {
            int v = lib::ascii_hex_to_byte(char(ch));
            c.expect(hex && v == std::stoi(std::string(1, char(ch)), nullptr, 16), "C11:hex", "{} is {}", ch, v);
        });
        c.expect(threw == !hex, "C11:hex", "character {} {}", ch, threw ? "refused" : "accepted");
        auto [hi, lo] = lib::byte_to_ascii_hex(uint8_t(ch));
        c.expect(fmt::format("{}{}", hi, lo) == fmt::format("{:02x}", ch) && lib::ascii_octet_to_byte(hi, lo) == ch, "C11:hex", "byte {}", ch);
    }
    c.distinct(fmt::format("{}", c.index()));
}

template <typename T> static void masks(Case& c) {
    int w = 8 * sizeof(T);
    for (int lo = 0; lo < w; ++lo)
        for (int hi = lo; hi < w; ++hi) {
            uint64_t want = 0;
            for (int b = lo; b <= hi; ++b) want |= uint64_t(1) << b;
            T a = T(lo), b = T(hi);
            asm volatile("" : "+m"(a), "+m"(b));
            T got = lib::bitmask<T>(a, b);
            c.expect(uint64_t(std::make_unsigned_t<T>(got)) == want, "C11:bitmask", "bitmask<{}>({}, {}) = {:#x} instead of {:#x}", tname<T>(), lo, hi, uint64_t(std::make_unsigned_t<T>(got)), want);
            c.obs("masks");
        }
}
template <size_t N> static void statics(Case& c, size_t i) {
    lib::MaybeStatic<N> s;
    lib::MaybeStatic<svs::Dynamic> d(N);
    auto judge = [&]<size_t Step>(lib::Val<Step>) {
        size_t up = N / Step * Step;
        c.expect(lib::upper<Step>(s) == up && lib::upper<Step>(d) == up && lib::rest<Step>(s).size() == N - up && lib::rest<Step>(d).size() == N - up, "C11:trailing", "N {} step {}", N, Step);
        size_t last = ((N + Step - 1) / Step - 1) * Step;
        size_t k = i / Step * Step;
        c.expect(lib::islast<Step>(s, last) && lib::islast<Step>(d, last) && (lib::islast<Step>(s, k) == (k == last)) && (lib::islast<Step>(d, k) == (k == last)), "C11:islast", "N {} step {} i {}", N, Step, k);
    };
    judge(lib::Val<1>{}), judge(lib::Val<7>{}), judge(lib::Val<8>{}), judge(lib::Val<16>{}), judge(lib::Val<32>{}), judge(lib::Val<64>{});
    c.expect(s.size() == N && d.size() == N && size_t(s) == N && size_t(d) == N, "C11:static-size", "{}", N);
    c.expect(throws([&] { lib::MaybeStatic<N> x(N + 1 + i); }) && !throws([&] { lib::MaybeStatic<N> x(N); }), "C11:static-check", "{}", N);
}
VH_SCENARIO(helpers, "C11 C14", 60, 3000) {
    auto& r = c.rng;
    masks<uint8_t>(c), masks<uint16_t>(c), masks<uint32_t>(c), masks<uint64_t>(c);
    masks<int8_t>(c), masks<int16_t>(c), masks<int32_t>(c), masks<int64_t>(c);
    for (int i = 0; i < 300; ++i) {
        size_t x = r() >> r.below(64), y = std::max<size_t>(1, r() >> r.below(64));
        size_t q = size_t(((unsigned __int128)x + y - 1) / y);
        c.expect(lib::div_round_up(x, y) == q, "C11:div-round-up", "{} / {} = {}", x, y, lib::div_round_up(x, y));
        if ((unsigned __int128)q * y <= ~size_t(0)) c.expect(lib::round_up_to_multiple_of(x, y) == q * y, "C11:round-up", "{} to {} = {}", x, y, lib::round_up_to_multiple_of(x, y));
        auto p = lib::prevpow2(y);
        c.expect(p.value() <= y && y - p.value() < p.value() && p.value() == size_t(1) << p.raw() && p.mod_mask() == p.value() - 1, "C11:prevpow2", "{} -> {}", y, p.value());
        lib::PowerOfTwo e(r.below(63));
        size_t v = size_t(1) << e.raw();
        c.expect(e.value() == v && x / e == x / v && x % e == x % v && x * e == x * v && e * x == x * v, "C11:power-of-two", "{} with 2^{}", x, e.raw());
        double pc = r.chance(0.5) ? r.uniform() : r.one_of({0.0, 1.0, -1e-9, 1.0000001, 5.0, -1.0});
        bool th = throws([&] { c.expect(lib::Percent(pc).value() == pc, "C11:percent", "{}", pc); });
        c.expect(th == (pc < 0 || pc > 1), "C11:percent-range", "{} {}", pc, th ? "refused" : "accepted");
        size_t sz = r.below(4096);
        c.expect(lib::compute_alignment(sz) == (sz % 64 == 0 ? 64 : sz % 32 == 0 ? 32 : 0), "C11:alignment", "{} -> {}", sz, lib::compute_alignment(sz));
    }
    c.expect(throws([] { (void)lib::prevpow2(0); }), "C11:prevpow2", "0 has one");
    c.expect(throws([] { (void)lib::Percent(std::nan("")); }), "C11:percent-range", "NaN accepted");
    c.expect(lib::extract_extent(5, 5) == 5 && lib::extract_extent(svs::Dynamic, 5) == 5 && lib::extract_extent(7, svs::Dynamic) == 7 && lib::extract_extent(svs::Dynamic, svs::Dynamic) == svs::Dynamic && throws([] { (void)lib::extract_extent(3, 4); }), "C11:extent", "wrong");
    statics<1>(c, r.below(1)), statics<8>(c, r.below(8)), statics<17>(c, r.below(17)), statics<64>(c, r.below(64)), statics<100>(c, r.below(100)), statics<128>(c, r.below(128));

    // Sequences.
    for (int i = 0; i < 60; ++i) {
        size_t n = r.below(30), m = r.below(30);
        std::vector<int> a(n), b(m);
        int spread = 1 + r.below(60);
        for (auto& x : a) x = r.in(-spread, spread);
        for (auto& x : b) x = r.in(-spread, spread);
        std::set<int> sa(a.begin(), a.end()), sb(b.begin(), b.end());
        size_t common = 0;
        for (int x : sa) common += sb.count(x);
        c.expect(lib::count_intersect(a, b) == common && lib::count_intersect(a.begin(), a.end(), b.begin(), b.end()) == common, "C11:count-intersect", "{} and {}: {}", head(a), head(b), lib::count_intersect(a, b));
        c.expect(lib::ranges::all_unique(a) == (sa.size() == n), "C11:all-unique", "{}", head(a));
        auto mm = lib::extrema(a.begin(), a.end());
        if (n) c.expect(mm.min == *sa.begin() && mm.max == *sa.rbegin(), "C11:extrema", "{}", head(a));
        // Merge of sorted sequences, bounded by the output; ties prefer the second.
        bool down = r.chance(0.5);
        using P = std::pair<int, int>;
        std::vector<P> pa, pb;
        for (auto x : a) pa.push_back({x, 0});
        for (auto x : b) pb.push_back({x, 1});
        auto cmp = [down](const P& x, const P& y) { return down ? x.first > y.first : x.first < y.first; };
        std::stable_sort(pa.begin(), pa.end(), cmp);
        std::stable_sort(pb.begin(), pb.end(), cmp);
        for (size_t k = 0; k < pa.size(); ++k) pa[k].second = int(k);
        for (size_t k = 0; k < pb.size(); ++k) pb[k].second = int(k) + 1000;
        std::vector<P> out(r.below(n + m + 1), P{12345, -1}), all = pa;
        all.insert(all.end(), pb.begin(), pb.end());
        auto end = lib::bounded_merge(pa.begin(), pa.end(), pb.begin(), pb.end(), out.begin(), out.end(), cmp);
        c.expect(end == out.end(), "C11:merge-end", "wrong end");
        std::stable_sort(all.begin(), all.end(), cmp);
        size_t ia = 0, ib = 0;
        for (size_t k = 0; k < out.size(); ++k) {
            c.expect(out[k].first == all[k].first, "C11:merge", "slot {} of the merge holds {} instead of {}", k, out[k].first, all[k].first);
            // each sequence keeps its own order and nothing is skipped
            bool from_a = out[k].second < 1000;
            c.expect(from_a ? out[k].second == int(ia++) : out[k].second == int(ib++) + 1000, "C11:merge-order", "slot {}", k);
        }
        std::vector<P> out2(out.size());
        lib::ranges::bounded_merge(pa, pb, out2, cmp);
        c.expect(out2 == out, "C11:merge-range", "range form differs");
        // Elementwise helpers.
        std::vector<float> f(n), g(n);
        for (auto& x : f) x = 0.25f * float(1 + r.below(100));
        svs::range::negate(f, g);
        bool ok = true;
        for (size_t k = 0; k < n; ++k) ok &= g[k] == -f[k];
        svs::range::sqrt(f, g);
        for (size_t k = 0; k < n; ++k) ok &= g[k] == std::sqrt(f[k]);
        svs::range::invert(f, g);
        for (size_t k = 0; k < n; ++k) ok &= g[k] == 1.0f / f[k];
        svs::range::transform(f, g, svs::range::MulBy(3.0f));
        for (size_t k = 0; k < n; ++k) ok &= g[k] == f[k] * 3.0f;
        svs::range::transform(f, g, svs::range::DivideBy(3.0f));
        for (size_t k = 0; k < n; ++k) ok &= g[k] == f[k] / 3.0f;
        c.expect(ok, "C11:elementwise", "wrong");
        // Fixed-size spans only of that size.
        std::vector<int> v(r.below(6));
        c.expect(throws([&] { (void)lib::as_span<3>(v); }) == (v.size() != 3) && throws([&] { (void)lib::as_const_span<3>(v); }) == (v.size() != 3), "C11:span-size", "{}", v.size());
        c.expect(lib::as_span(v).data() == v.data() && lib::as_span(v).size() == v.size() && lib::as_const_span(v).size() == v.size(), "C11:span", "wrong");
        c.obs("sequences");
    }
    // Scope guards run once, at the end of their scope, also when leaving by an exception.
    int runs = 0;
    {
        auto g = lib::make_scope_guard([&]() noexcept { ++runs; });
        c.expect(runs == 0, "C11:scope-guard", "ran early");
    }
    c.expect(runs == 1, "C11:scope-guard", "ran {} times", runs);
    throws([&] {
        auto f = [&]() noexcept { ++runs; };
        auto g = lib::make_scope_guard(f);
        throw std::runtime_error("x");
    });
    c.expect(runs == 2, "C11:scope-guard", "ran {} times", runs);
    c.distinct(fmt::format("{}", c.index()));
}

// Ordering of neighbors and the sentinels used to fill buffers.
VH_SCENARIO(neighbors, "C11 C14", 40, 1000) {
    auto& r = c.rng;
    using N = svs::Neighbor<uint32_t>;
    auto draw = [&] { return N(r.below(5), r.one_of({0.0f, 1.0f, -1.0f, 2.5f, std::numeric_limits<float>::max(), std::numeric_limits<float>::lowest(), float(r.normal())})); };
    for (int i = 0; i < 300; ++i) {
        auto x = draw(), y = draw(), z = draw();
        c.expect((x < y) == (x.distance() < y.distance()) && (x > y) == (x.distance() > y.distance()), "C11:neighbor-order", "wrong");
        c.expect(svs::equal_id(x, y) == (x.id() == y.id()) && svs::equal(x, y) == (x.id() == y.id() && x.distance() == y.distance()), "C11:neighbor-equal", "wrong");
        c.expect(svs::IDEqual()(x, y) == (x.id() == y.id()) && (x.id() != y.id() || svs::IDHash()(x) == svs::IDHash()(y)), "C11:neighbor-hash", "wrong");
        auto total = [&](auto cmp) {
            auto key = [&](const N& a, const N& b) { return cmp(a, b) || (!cmp(b, a) && a.id() < b.id()); };
            auto t = svs::TotalOrder(cmp);
            c.expect(t(x, y) == key(x, y) && !(t(x, y) && t(y, x)) && (!(t(x, y) && t(y, z)) || t(x, z)), "C11:total-order", "({}, {}) ({}, {})", x.id(), x.distance(), y.id(), y.distance());
        };
        total(std::less<>());
        total(std::greater<>());
        // Nothing is worse than the sentinel or better than the tombstone.
        constexpr auto sl = svs::type_traits::sentinel_v<N, std::less<>>;
        constexpr auto sg = svs::type_traits::sentinel_v<N, std::greater<>>;
        c.expect(!(sl < x) && !(sg > x) && sl.id() == std::numeric_limits<uint32_t>::max() && sg.id() == sl.id(), "C11:sentinel", "beaten by {}", x.distance());
        constexpr float tl = svs::type_traits::tombstone_v<float, std::less<>>, tg = svs::type_traits::tombstone_v<float, std::greater<>>;
        c.expect(!(x.distance() < tl) && !(x.distance() > tg), "C11:tombstone", "beaten by {}", x.distance());
        // Flags do not disturb ids or distances, nor each other.
        svs::SearchNeighbor<uint32_t> s(x);
        c.expect(!s.visited(), "C11:visited", "visited from the start");
        s.set_visited();
        c.expect(s.visited() && s.id() == x.id() && s.distance() == x.distance(), "C11:visited", "wrong");
        for (bool valid : {false, true}) {
            svs::PredicatedSearchNeighbor<uint32_t> p(x.id(), x.distance(), valid);
            c.expect(p.valid() == valid && !p.visited(), "C11:valid", "wrong");
            p.set_visited();
            c.expect(p.valid() == valid && p.visited() && p.id() == x.id() && p.distance() == x.distance(), "C11:valid", "wrong after a visit");
        }
        // Narrowing of ids.
        size_t id = r() >> r.below(64);
        svs::Neighbor<size_t> big(id, 1.5f);
        bool th = false;
        try {
            svs::Neighbor<uint32_t> small(big);
            c.expect(small.id() == id && small.distance() == 1.5f, "C11:neighbor-narrow", "{} became {}", id, small.id());
        } catch (const lib::narrowing_error&) { th = true; }
        c.expect(th == (id > 0xffffffffu), "C11:neighbor-narrow", "{} {}", id, th ? "refused" : "accepted");
    }
    c.distinct(fmt::format("{}", c.index()));
}
