// Vector file formats against encoders written from their description (C19).
#pragma once
#include "gen.h"

#include "svs/core/data.h"
#include "svs/core/io.h"
#include "svs/core/query_result.h"

#include <bit>
#include <cstring>
#include <fstream>

namespace fo {
using namespace vh;
namespace fs = std::filesystem;
namespace sio = svs::io;

using Bytes = std::string;
inline Bytes slurp(const fs::path& p) {
    std::ifstream f(p, std::ios::binary);
    return Bytes(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
inline void spit(const fs::path& p, const Bytes& b) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f.write(b.data(), std::streamsize(b.size()));
}
template <typename T> void put(Bytes& b, const T& x) {
    char t[sizeof(T)];
    std::memcpy(t, &x, sizeof(T));
    b.append(t, sizeof(T));
}
template <typename T> Bytes payload(const Mat<T>& m) {
    return Bytes(reinterpret_cast<const char*>(m.v.data()), m.v.size() * sizeof(T));
}
// The three formats, from their documentation.
template <typename T> Bytes enc_vecs(const Mat<T>& m) {
    Bytes b;
    for (size_t i = 0; i < m.n; ++i) {
        put(b, uint32_t(m.d));
        for (size_t j = 0; j < m.d; ++j) put(b, m.row(i)[j]);
    }
    return b;
}
template <typename T> Bytes enc_bin(const Mat<T>& m) {
    Bytes b;
    put(b, uint32_t(m.n));
    put(b, uint32_t(m.d));
    return b + payload(m);
}
using Uuid = std::array<uint8_t, 16>;
inline Bytes v1_header(uint64_t n, uint64_t d, const Uuid& id) {
    Bytes b;
    put(b, uint64_t(0xcad4a6b2579980fe));
    put(b, id);
    put(b, n);
    put(b, d);
    b.resize(1024, '\0');
    return b;
}
inline Bytes vtest_header(uint64_t n, uint64_t d, const Uuid& id) {
    Bytes b;
    put(b, uint64_t(0xf83ad4901d434f04));
    put(b, n);
    put(b, d);
    put(b, id);
    b.resize(64, '\0');
    return b;
}
inline Bytes database_header(uint64_t kind, const Uuid& id) {
    Bytes b;
    put(b, uint64_t(0x26b0644ab838c3a3));
    put(b, id);
    put(b, kind);
    b.resize(64, '\0');
    return b;
}
inline svs::lib::UUID to_uuid(const Uuid& id) {
    static_assert(sizeof(svs::lib::UUID) == 16);
    return std::bit_cast<svs::lib::UUID>(id);
}
inline Uuid from_uuid(const svs::lib::UUID& id) { return std::bit_cast<Uuid>(id); }
inline Uuid rand_uuid(Rng& r) {
    Uuid u;
    for (auto& x : u) x = uint8_t(r.below(256));
    return u;
}

inline std::string where(const Bytes& a, const Bytes& b) {
    size_t n = std::min(a.size(), b.size()), i = 0;
    while (i < n && a[i] == b[i]) ++i;
    return fmt::format("{} and {} bytes, first difference at {}", a.size(), b.size(), i);
}

// Any value but NaN (which no comparison can follow).
template <typename T> T any_value(Rng& r) {
    if (r.chance(0.3)) return from_double<T>(double(r.in(-3, 3)) + (std::is_integral_v<T> ? 4 : 0.5));
    for (;;) {
        uint64_t bits = r.below(1ULL << 32) << 32 | r.below(1ULL << 32);
        T x;
        std::memcpy(&x, &bits, sizeof(T));
        if constexpr (std::is_integral_v<T>) return x;
        else if (!std::isnan(as_double(x))) return x;
    }
}
template <typename T> Mat<T> any_mat(Rng& r, size_t n, size_t d) {
    Mat<T> m(n, d);
    for (auto& x : m.v) x = any_value<T>(r);
    return m;
}

struct Shape2 {
    size_t n, d;
};
inline Shape2 any_shape(Rng& r, bool empty = false) {
    size_t n = r.chance(0.15) ? 1 : 1 + r.below(r.chance(0.2) ? 400 : 25);
    size_t d = r.chance(0.15) ? 1 : 1 + r.below(r.chance(0.15) ? 700 : 33);
    if (empty && r.chance(0.1)) n = 0;
    return {n, d};
}

template <typename T, typename Span> bool same_bits(const Span& s, const T* p, size_t d) {
    if (s.size() != d) return false;
    for (size_t j = 0; j < d; ++j) {
        T x = s[j];
        if (std::memcmp(&x, p + j, sizeof(T)) != 0) return false;
    }
    return true;
}

// Reads everything a reader yields and compares with the first `count` rows.
template <typename T, typename R>
void drain(Case& c, R& reader, const Mat<T>& m, size_t count, const std::string& ctx) {
    size_t i = 0;
    for (auto v : reader) {
        if (!c.expect(i < count, "C19:too-many", "{}: more than {} vectors were read", ctx, count)) return;
        if (!c.expect(same_bits(v, m.row(i), m.d), "C19:vector", "{}: vector {} differs from what was written", ctx, i)) return;
        ++i;
    }
    c.expect(i == count, "C19:too-few", "{}: {} of {} vectors were read", ctx, i, count);
    c.obs("vectors_streamed", i);
}
template <typename T, typename Data>
void same_data(Case& c, const Data& data, const Mat<T>& m, const std::string& ctx, const char* prop = "C19") {
    if (!c.expect(data.size() == m.n && data.dimensions() == m.d, std::string(prop) + ":shape", "{}: {} x {} instead of {} x {}", ctx, data.size(), data.dimensions(), m.n, m.d)) return;
    for (size_t i = 0; i < m.n; ++i) {
        if (!c.expect(same_bits(data.get_datum(i), m.row(i), m.d), std::string(prop) + ":datum", "{}: vector {} differs from what was stored", ctx, i)) return;
    }
    c.obs("datasets_compared");
}

using svs::lib::PowerOfTwo;
template <typename T> auto blocked_alloc(Rng& r, size_t d) {
    auto p = svs::data::BlockingParameters();
    // Blocks hold at least one vector.
    size_t least = std::bit_width(d * sizeof(T)) + 1;
    p.blocksize_bytes = PowerOfTwo(least + r.below(6));
    return svs::data::Blocked<svs::lib::Allocator<T>>(p);
}

// Load the file through every loading path that fits.
template <typename T> void load_all(Case& c, const fs::path& p, const Mat<T>& m, const std::string& ctx) {
    auto& r = c.rng;
    {
        auto d = svs::data::SimpleData<T>::load(p);
        same_data(c, d, m, ctx + " load");
    }
    switch (r.below(5)) {
        case 0: {
            auto d = svs::data::SimpleData<T, svs::Dynamic, svs::HugepageAllocator<T>>::load(p);
            same_data(c, d, m, ctx + " huge");
            break;
        }
        case 1: {
            if (m.d == 0) break;
            auto d = svs::data::BlockedData<T, svs::Dynamic, svs::lib::Allocator<T>>::load(p, blocked_alloc<T>(r, m.d));
            same_data(c, d, m, ctx + " blocked");
            break;
        }
        case 2: {
            auto d = svs::VectorDataLoader<T>(p).load();
            same_data(c, d, m, ctx + " loader");
            break;
        }
        case 3: {
            auto d = svs::load_data<T>(p);
            same_data(c, d, m, ctx + " load_data");
            break;
        }
        default: {
            auto u = svs::UnspecializedVectorDataLoader<>(p, svs::datatype_v<T>);
            c.expect(u.dims_ == m.d && u.type_ == svs::datatype_v<T>, "C19:deduced", "{}: deduced {} dims", ctx, u.dims_);
            auto d = u.refine(svs::lib::Type<T>()).load();
            same_data(c, d, m, ctx + " refined");
        }
    }
    // Static dimensions: right ones load, wrong ones are refused.
    if (m.d == 4) {
        auto d = svs::data::SimpleData<T, 4>::load(p);
        same_data(c, d, m, ctx + " fixed");
    } else {
        c.expect(throws([&] { (void)svs::data::SimpleData<T, 4>::load(p); }), "C18:dims", "{}: {} dims loaded as 4", ctx, m.d);
    }
    c.expect(sio::deduce_dimensions(p) == m.d, "C19:deduced-dims", "{}: deduced {} dims", ctx, sio::deduce_dimensions(p));
}

template <typename T> svs::data::SimpleData<T> store(const Mat<T>& m) {
    return to_data<svs::data::SimpleData<T>>(m);
}

/////
///// vecs
/////
template <typename T> const char* vecs_ext() {
    if constexpr (std::is_same_v<T, float>) return "fvecs";
    if constexpr (std::is_same_v<T, svs::Float16>) return "hvecs";
    if constexpr (std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>) return "bvecs";
    return "ivecs";
}
template <typename T> void vecs(Case& c) {
    auto& r = c.rng;
    auto [n, d] = any_shape(r);
    if (r.chance(0.15)) d = 4;
    auto m = any_mat<T>(r, n, d);
    std::string ctx = fmt::format("{} {}x{}", tname<T>(), n, d);
    c.step("vecs {}", ctx);
    auto p = c.scratch() / fmt::format("x.{}", vecs_ext<T>());
    size_t how = r.below(4);
    {
        if (how == 0) {
            auto w = sio::vecs::VecsFile(p).template writer<T>(d);
            for (size_t i = 0; i < n; ++i) w << m.span(i);
            if (r.chance(0.5)) w.flush();
        } else if (how == 1) {
            auto w = sio::vecs::VecsWriter<>(p.string(), d);
            for (size_t i = 0; i < n; ++i) w.append(std::vector<T>(m.row(i), m.row(i) + d));
        } else if (how == 2) {
            sio::save_vecs(store(m), p);
        } else {
            auto w = sio::vecs::VecsWriter<T>(std::ofstream(p, std::ios::binary), d);
            for (size_t i = 0; i < n; ++i) w << m.span(i);
        }
    }
    auto expect = enc_vecs(m), got = slurp(p);
    if (!c.expect(got == expect, "C19:bytes", "vecs {} written by {}: {}", ctx, how, where(got, expect))) return;
    // Read what an independent encoder wrote.
    spit(p, expect);
    auto file = sio::vecs::VecsFile(p);
    auto dims = file.get_dims(sizeof(T));
    c.expect(dims.first == n && dims.second == d, "C19:dims", "vecs {}: get_dims gives {} x {}", ctx, dims.first, dims.second);
    // Without a hint the element size is deduced; unambiguous files must be understood.
    size_t fits = 0;
    for (size_t e : {1, 2, 4, 8}) {
        size_t line = 4 + e * d;
        if (got.size() % line) continue;
        bool ok = true;
        for (size_t o = 0; o < got.size() && ok; o += line) {
            uint32_t x;
            std::memcpy(&x, got.data() + o, 4);
            ok = x == d;
        }
        fits += ok;
    }
    if (fits == 1) {
        auto g = file.get_dims();
        c.expect(g.first == n && g.second == d, "C19:dims-deduced", "vecs {}: get_dims without a hint gives {} x {}", ctx, g.first, g.second);
        c.obs("vecs_deduced");
    }
    size_t limit = r.chance(0.4) ? svs::Dynamic : r.below(n + 3);
    auto reader = file.reader(svs::lib::Type<T>(), limit);
    c.expect(reader.ndims() == d && reader.nvectors() == n && reader.vectors_to_read() == std::min(limit, n), "C19:reader", "vecs {} limit {}: reader has {} dims, {} vectors, {} to read", ctx, limit, reader.ndims(), reader.nvectors(), reader.vectors_to_read());
    drain(c, reader, m, std::min(limit, n), fmt::format("vecs {} limit {}", ctx, limit));
    for (size_t k = 0, e = r.below(3); k < e; ++k) {
        size_t l2 = r.below(n + 3);
        reader.resize(l2);
        drain(c, reader, m, std::min(l2, n), fmt::format("vecs {} resized to {}", ctx, l2));
    }
    reader.resize();
    drain(c, reader, m, n, fmt::format("vecs {} again", ctx));
    load_all(c, p, m, "vecs " + ctx);
    // A dataset and an element type of another size do not go together.
    if constexpr (sizeof(T) != 8) {
        if (got.size() % (4 + 8 * d) != 0) {
            c.expect(throws([&] { (void)svs::data::SimpleData<double>::load(p); }), "C18:type", "vecs {} loaded as double", ctx);
        }
    }
    c.obs("files_written");
    c.distinct(fmt::format("vecs {} {} {}", ctx, how, hash_bytes(expect.data(), expect.size())));
    c.sample("vecs {} written by {}, limit {}", ctx, how, limit);
}

/////
///// bin
/////
template <typename T> void bin(Case& c) {
    auto& r = c.rng;
    auto [n, d] = any_shape(r, true);
    if (r.chance(0.15)) d = 4;
    auto m = any_mat<T>(r, n, d);
    std::string ctx = fmt::format("{} {}x{}", tname<T>(), n, d);
    c.step("bin {}", ctx);
    auto p = c.scratch() / "x.bin";
    size_t how = r.below(3);
    {
        if (how == 0) {
            auto w = sio::binary::BinaryFile(p).template writer<T>(n, d);
            for (size_t i = 0; i < n; ++i) w << m.span(i);
            if (r.chance(0.5)) w.flush();
        } else if (how == 1) {
            auto w = sio::binary::BinaryWriter<>(p.string(), n, d);
            for (size_t i = 0; i < n; ++i) w.append(std::vector<T>(m.row(i), m.row(i) + d));
        } else {
            auto w = sio::binary::BinaryWriter<T>(std::ofstream(p, std::ios::binary), n, d);
            for (size_t i = 0; i < n; ++i) w << m.span(i);
        }
    }
    auto expect = enc_bin(m), got = slurp(p);
    if (!c.expect(got == expect, "C19:bytes", "bin {} written by {}: {}", ctx, how, where(got, expect))) return;
    spit(p, expect);
    auto file = sio::binary::BinaryFile(p);
    for (auto dims : {file.get_dims(sizeof(T)), file.get_dims()}) {
        c.expect(dims.first == n && dims.second == d, "C19:dims", "bin {}: get_dims gives {} x {}", ctx, dims.first, dims.second);
    }
    size_t limit = r.chance(0.4) ? svs::Dynamic : r.below(n + 3);
    auto reader = file.reader(svs::lib::Type<T>(), limit);
    c.expect(reader.ndims() == d && reader.nvectors() == n && reader.vectors_to_read() == std::min(limit, n), "C19:reader", "bin {} limit {}: reader has {} dims, {} vectors, {} to read", ctx, limit, reader.ndims(), reader.nvectors(), reader.vectors_to_read());
    drain(c, reader, m, std::min(limit, n), fmt::format("bin {} limit {}", ctx, limit));
    for (size_t k = 0, e = r.below(3); k < e; ++k) {
        size_t l2 = r.below(n + 3);
        reader.resize(l2);
        drain(c, reader, m, std::min(l2, n), fmt::format("bin {} resized to {}", ctx, l2));
    }
    reader.resize();
    drain(c, reader, m, n, fmt::format("bin {} again", ctx));
    load_all(c, p, m, "bin " + ctx);
    using Other = std::conditional_t<sizeof(T) == 4, uint8_t, float>;
    if (n > 0) c.expect(throws([&] { (void)svs::data::SimpleData<Other>::load(p); }), "C18:type", "bin {} loaded as {}", ctx, tname<Other>());
    c.obs("files_written");
    c.distinct(fmt::format("bin {} {} {}", ctx, how, hash_bytes(expect.data(), expect.size())));
    c.sample("bin {} written by {}, limit {}", ctx, how, limit);
}

/////
///// native
/////
template <typename T> void native(Case& c) {
    auto& r = c.rng;
    auto [n, d] = any_shape(r, true);
    if (r.chance(0.15)) d = 4;
    auto m = any_mat<T>(r, n, d);
    auto id = r.chance(0.1) ? Uuid{} : rand_uuid(r);
    std::string ctx = fmt::format("{} {}x{}", tname<T>(), n, d);
    c.step("native {}", ctx);
    auto p = c.scratch() / "x.svs";
    size_t how = r.below(5);
    {
        if (how == 0) {
            sio::save(store(m), sio::NativeFile(p), to_uuid(id));
        } else if (how == 1) {
            auto w = sio::v1::NativeFile(p).writer(svs::lib::Type<T>(), d, to_uuid(id));
            for (size_t i = 0; i < n; ++i) {
                w << m.span(i);
                // A header written in between makes what is there readable.
                if (r.chance(0.1)) {
                    w.writeheader();
                    w.flush();
                    auto part = slurp(p);
                    Mat<T> head_rows(i + 1, d);
                    std::copy_n(m.v.begin(), (i + 1) * d, head_rows.v.begin());
                    auto want = v1_header(i + 1, d, id) + payload(head_rows);
                    c.expect(part == want, "C19:checkpoint", "native {} after {} vectors: {}", ctx, i + 1, where(part, want));
                    c.obs("headers_in_between");
                }
            }
            c.expect(w.dimensions() == d, "C19:writer-dims", "native {}: writer has {} dims", ctx, w.dimensions());
        } else if (how == 2) {
            auto w = sio::NativeFile(p).writer(d, to_uuid(id));
            for (size_t i = 0; i < n; ++i) w.append(std::vector<T>(m.row(i), m.row(i) + d));
        } else if (how == 3) {
            sio::save(m.view(), sio::v1::NativeFile(p), to_uuid(id));
        } else {
            // Pieces of one vector written together.
            auto w = sio::v1::NativeFile(p).writer(d, to_uuid(id));
            for (size_t i = 0; i < n; ++i) {
                size_t cut = r.below(d + 1);
                w << std::make_tuple(
                    std::span<const T>(m.row(i), cut), std::span<const T>(m.row(i) + cut, d - cut)
                );
            }
        }
    }
    auto expect = v1_header(n, d, id) + payload(m), got = slurp(p);
    if (!c.expect(got == expect, "C19:bytes", "native {} written by {}: {}", ctx, how, where(got, expect))) return;
    bool vtest = r.chance(0.25);
    auto head_bytes = vtest ? vtest_header(n, d, id) : v1_header(n, d, id);
    spit(p, head_bytes + payload(m));
    auto schema = sio::classify(p);
    c.expect(schema == (vtest ? sio::FileSchema::Vtest : sio::FileSchema::V1), "C19:schema", "native {}: not recognised", ctx);
    auto found = sio::get_uuid(p);
    c.expect(found && from_uuid(*found) == id, "C19:uuid", "native {}: another identity is read", ctx);
    auto dims = sio::NativeFile(p).get_dims();
    c.expect(dims.first == n && dims.second == d, "C19:dims", "native {}: get_dims gives {} x {}", ctx, dims.first, dims.second);
    size_t limit = r.chance(0.4) ? svs::Dynamic : r.below(n + 3);
    auto read = [&](auto file) {
        auto reader = file.reader(svs::lib::Type<T>(), limit);
        c.expect(reader.ndims() == d && reader.nvectors() == std::min(limit, n), "C19:reader", "native {} limit {}: reader has {} dims, {} vectors", ctx, limit, reader.ndims(), reader.nvectors());
        drain(c, reader, m, std::min(limit, n), fmt::format("native {} limit {}", ctx, limit));
        size_t l2 = r.below(n + 1);
        reader.resize(l2);
        drain(c, reader, m, l2, fmt::format("native {} resized to {}", ctx, l2));
        reader.resize(n);
        drain(c, reader, m, n, fmt::format("native {} again", ctx));
        c.expect(from_uuid(file.uuid()) == id && file.header().num_vectors_ == n && file.header().dimensions_per_vector_ == d, "C19:header", "native {}: header", ctx);
        // Mapped access to the same bytes.
        if (n > 0) {
            auto mapped = file.mmap(svs::lib::Type<T>(), svs::lib::Bytes(n * d * sizeof(T)), svs::MemoryMapper(svs::MemoryMapper::ReadOnly, svs::MemoryMapper::MustUseExisting));
            c.expect(std::memcmp(mapped.data(), m.v.data(), n * d * sizeof(T)) == 0, "C19:mapped", "native {}: mapped elements differ", ctx);
            c.expect(from_uuid(mapped.uuid()) == id, "C19:mapped-uuid", "native {}: mapped identity differs", ctx);
            c.obs("files_mapped");
        }
    };
    if (vtest) read(sio::vtest::NativeFile(p));
    else read(sio::v1::NativeFile(p));
    load_all(c, p, m, "native " + ctx);
    if (n > 0) {
        using Other = std::conditional_t<sizeof(T) == 4, uint8_t, float>;
        c.expect(throws([&] { (void)svs::data::SimpleData<Other>::load(p); }), "C18:type", "native {} loaded as {}", ctx, tname<Other>());
    }
    c.obs("files_written");
    c.distinct(fmt::format("native {} {} {} {}", ctx, how, vtest, hash_bytes(expect.data(), expect.size())));
    c.sample("native {} written by {}, limit {}, {}", ctx, how, limit, vtest ? "vtest" : "v1");
}

/////
///// conversion while writing
/////
template <typename To, typename From> void convert(Case& c) {
    auto& r = c.rng;
    auto [n, d] = any_shape(r);
    Mat<From> m(n, d);
    Mat<To> want(n, d);
    bool fits = true;
    bool wide = r.chance(0.3);
    for (size_t i = 0; i < m.v.size(); ++i) {
        From x;
        if (wide && r.chance(2.0 / double(m.v.size()))) {
            x = any_value<From>(r);
        } else {
            x = from_double<From>(double(r.below(100)));
            if (std::is_same_v<To, svs::Float16> && r.chance(0.7)) x = from_double<From>(r.normal());
        }
        m.v[i] = x;
        if constexpr (std::is_same_v<To, svs::Float16>) {
            want.v[i] = svs::Float16(static_cast<float>(x)); // exactness of this one: C11
        } else {
            // Exact or refused.
            double v = double(x);
            bool ok;
            if constexpr (std::is_integral_v<To>) {
                ok = v >= double(std::numeric_limits<To>::min()) && v < double(std::numeric_limits<To>::max()) + 1.0 && v == std::floor(v);
            } else {
                ok = double(static_cast<To>(v)) == v;
            }
            if (ok) want.v[i] = static_cast<To>(v);
            fits &= ok;
        }
    }
    std::string ctx = fmt::format("{} to {} {}x{}", tname<From>(), tname<To>(), n, d);
    c.step("convert {}", ctx);
    size_t how = r.below(3);
    auto p = c.scratch() / (how == 0 ? "x.vecs" : how == 1 ? "x.bin" : "x.svs");
    auto id = rand_uuid(r);
    bool refused = throws([&] {
        if (how == 0) {
            auto w = sio::vecs::VecsFile(p).template writer<To>(d);
            for (size_t i = 0; i < n; ++i) w << m.span(i);
        } else if (how == 1) {
            auto w = sio::binary::BinaryFile(p).template writer<To>(n, d);
            for (size_t i = 0; i < n; ++i) w << m.span(i);
        } else {
            auto w = sio::v1::NativeFile(p).writer(svs::lib::Type<To>(), d, to_uuid(id));
            for (size_t i = 0; i < n; ++i) w << m.span(i);
        }
    });
    if (!c.expect(refused == !fits, fits ? "C19:refused" : "C19:inexact", "{} by {}: {}", ctx, how, fits ? "refused" : "values that do not fit were written")) return;
    c.obs(fits ? "conversions" : "conversions_refused");
    if (fits) {
        auto expect = how == 0 ? enc_vecs(want) : how == 1 ? enc_bin(want) : v1_header(n, d, id) + payload(want);
        auto got = slurp(p);
        if (!c.expect(got == expect, "C19:converted", "{} by {}: {}", ctx, how, where(got, expect))) return;
        same_data(c, svs::data::SimpleData<To>::load(p), want, ctx);
    }
    c.distinct(fmt::format("{} {} {}", ctx, how, hash_bytes(m.v.data(), m.v.size() * sizeof(From))));
    c.sample("{} by {}, {}", ctx, how, fits ? "all fit" : "some do not fit");
}
} // namespace fo
