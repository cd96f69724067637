// Distance kernels against exact arithmetic (C10).
#pragma once
#include "gen.h"

#include "svs/core/distance.h"
#include "svs/concepts/distance.h"

namespace ds {
using namespace vh;

// Memory that ends (or begins) at an inaccessible page: reads past the vectors crash.
class Arena {
  public:
    Arena() {
        size_ = 1 << 20;
        base_ = static_cast<char*>(::mmap(nullptr, size_ + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        ::mprotect(base_ + page, size_, PROT_READ | PROT_WRITE);
    }
    ~Arena() { ::munmap(base_, size_ + 2 * page); }
    void poison(unsigned char v) { std::memset(base_ + page, v, size_); }
    // Room for `bytes` ending exactly at the barrier.
    char* at_end(size_t bytes) { return base_ + page + size_ - bytes; }
    char* at_start() { return base_ + page; }
    char* inside(size_t off) { return base_ + page + 4096 + off; }
    size_t size() const { return size_; }

  private:
    static constexpr size_t page = 4096;
    char* base_;
    size_t size_;
};
inline Arena& arena(int i) {
    static Arena a[2];
    return a[i];
}

enum class Values { SmallInts, Extremes, Reals, Wide };
template <typename T> void fill(Rng& r, T* p, size_t d, Values v) {
    for (size_t i = 0; i < d; ++i) {
        double x = 0;
        bool uns = std::is_unsigned_v<T>;
        switch (v) {
            case Values::SmallInts: x = double(r.in(uns ? 0 : -9, 9)); break;
            case Values::Extremes:
                if constexpr (std::is_same_v<T, svs::Float16>) {
                    x = r.one_of({1.0, -1.0, 0.0, 2048.0, -2047.0, 0.5, 60000.0, std::ldexp(1.0, -24), -std::ldexp(3.0, -20)});
                } else if constexpr (std::is_integral_v<T>) {
                    x = r.one_of({double(std::numeric_limits<T>::min()), double(std::numeric_limits<T>::max()), double(std::numeric_limits<T>::max()) - 1, 0.0, 1.0, uns ? 128.0 : -1.0, uns ? 127.0 : -64.0});
                } else {
                    x = r.one_of({1.0, -1.0, 0.0, 1e-6, 3.5e5, -1e4, 255.0, -128.0});
                }
                break;
            case Values::Reals: x = std::is_integral_v<T> ? double(r.in(uns ? 0 : -128, uns ? 255 : 127)) : r.normal(); break;
            case Values::Wide: x = std::is_integral_v<T> ? double(r.in(uns ? 0 : -128, uns ? 255 : 127)) : r.normal() * std::pow(10.0, double(r.in(-3, 3))); break;
        }
        p[i] = from_double<T>(x);
    }
}

// The mathematical value and a bound on the rounding error of float evaluation in any order.
template <typename A, typename B> std::pair<double, double> truth(Metric m, const A* a, const B* b, size_t d, bool& exact_sum) {
    long double s = 0, mag = 0, na = 0, nb = 0;
    bool ints = true;
    for (size_t i = 0; i < d; ++i) {
        long double x = as_double(a[i]), y = as_double(b[i]);
        ints &= x == std::floor(x) && y == std::floor(y);
        long double t = m == Metric::L2 ? (x - y) * (x - y) : x * y;
        s += t;
        mag += std::fabs(t);
        na += x * x;
        nb += y * y;
    }
    exact_sum = ints && mag < 16777216.0L && na < 16777216.0L && nb < 16777216.0L;
    const double u = 6.0e-8;
    if (m == Metric::Cos) {
        double den = std::sqrt(double(na)) * std::sqrt(double(nb));
        double v = double(s) / den;
        double rel = exact_sum ? 6 : 2 * double(d) + 12;
        return {v, u * rel * (double(mag) / den) + (exact_sum ? 0 : u * double(d) * std::fabs(v)) + 1e-37};
    }
    return {double(s), exact_sum ? 0.0 : u * (double(d) + 8) * double(mag) + 1e-37};
}

template <typename Dist, typename A, typename B, size_t NA, size_t NB>
float eval(Dist& dist, std::span<const A, NA> a, std::span<const B, NB> b) {
    svs::distance::maybe_fix_argument(dist, a);
    return svs::distance::compute(dist, a, b);
}

template <typename A, typename B, typename Dist, size_t N = svs::Dynamic>
void one(Case& c, size_t d, Values v) {
    auto& r = c.rng;
    constexpr Metric m = metric_of<Dist>();
    std::vector<A> a(d);
    std::vector<B> b(d);
    fill(r, a.data(), d, v);
    fill(r, b.data(), d, v);
    if (r.chance(0.1)) // equal vectors
        for (size_t i = 0; i < d; ++i) {
            a[i] = from_double<A>(std::clamp(as_double(b[i]), -6e4, 6e4));
            b[i] = from_double<B>(as_double(a[i]));
        }
    if (m == Metric::Cos) { // a zero vector has no direction
        a[r.below(d)] = from_double<A>(3);
        b[r.below(d)] = from_double<B>(5);
    }
    bool exact_sum;
    auto [want, tol] = truth(m, a.data(), b.data(), d, exact_sum);
    auto ctx = fmt::format("{} {} {} d={} static={} values={}", metric_name(m), tname<A>(), tname<B>(), d, N == svs::Dynamic ? 0 : N, int(v));
    c.step("{}", ctx);
    float first = 0;
    for (int place = 0; place < 4; ++place) {
        unsigned char poison = r.one_of({0xff, 0x00, 0x7f, 0x80});
        size_t ba = d * sizeof(A), bb = d * sizeof(B);
        char *pa, *pb;
        size_t off = r.below(64);
        for (int k = 0; k < 2; ++k) { // poison only what surrounds the vectors
            auto& ar = arena(k);
            size_t bytes = k ? bb : ba, al = k ? sizeof(B) : sizeof(A);
            char* p = place == 0 ? ar.at_end(bytes) : place == 1 ? ar.at_start() : ar.inside(off * al);
            if (place >= 2) std::memset(p - 256, poison, bytes + 512);
            else if (place == 0) std::memset(p - 256, poison, 256);
            else std::memset(p + bytes, poison, 256);
            (k ? pb : pa) = p;
        }
        std::memcpy(pa, a.data(), ba);
        std::memcpy(pb, b.data(), bb);
        std::span<const A> sa(reinterpret_cast<const A*>(pa), d);
        std::span<const B> sb(reinterpret_cast<const B*>(pb), d);
        Dist dist{};
        if (r.chance(0.5)) { // a functor used before gives the same
            Mat<A> other(1, d);
            fill(r, other.row(0), d, Values::SmallInts);
            other.row(0)[0] = from_double<A>(1);
            std::span<const A> so(other.row(0), d);
            (void)eval(dist, so, sb);
        }
        float x;
        if constexpr (N == svs::Dynamic) {
            x = eval(dist, sa, sb);
        } else {
            std::span<const A, N> fa(sa.data(), N);
            std::span<const B, N> fb(sb.data(), N);
            int kind = r.below(3);
            x = kind == 0 ? eval(dist, fa, fb) : kind == 1 ? eval(dist, fa, sb) : eval(dist, sa, fb);
        }
        if (!c.expect(std::fabs(double(x) - want) <= tol, fmt::format("C10:value-{}-{}-{}", metric_name(m), tname<A>(), tname<B>()), "{} place {}: {} but exactly {} (tolerance {})", ctx, place, x, want, tol)) return;
        if (place == 0) first = x;
        else if (!c.expect(std::memcmp(&x, &first, 4) == 0, fmt::format("C10:placement-{}-{}-{}", metric_name(m), tname<A>(), tname<B>()), "{} place {}: {} at the end of a page, {} elsewhere", ctx, place, first, x)) return;
        // Evaluating again (with the argument fixed already) changes nothing.
        float y = svs::distance::compute(dist, sa, sb);
        c.expect(std::fabs(double(y) - want) <= tol, "C10:again", "{}: {} then {}", ctx, x, y);
        c.obs("evaluations_compared", 2);
        c.obs(exact_sum ? "judged_exactly" : "judged_to_rounding");
    }
}

template <typename A, typename B> void dims(Case& c) {
    auto& r = c.rng;
    // Case i covers dimension i+1, plus random larger ones.
    size_t d0 = 1 + c.index() % 160;
    for (size_t d : {d0, d0, 1 + size_t(r.below(520)), r.chance(0.1) ? 1 + size_t(r.below(5000)) : 1 + size_t(r.below(200))}) {
        for (auto v : {Values::SmallInts, r.one_of({Values::Extremes, Values::Reals, Values::Wide})}) {
            one<A, B, svs::DistanceL2>(c, d, v);
            one<A, B, svs::DistanceIP>(c, d, v);
            one<A, B, svs::DistanceCosineSimilarity>(c, d, v);
        }
    }
    c.distinct(fmt::format("{}", c.index()));
}
template <typename A, typename B, size_t N> void fixed_one(Case& c) {
    for (auto v : {Values::SmallInts, Values::Extremes, Values::Reals, Values::Wide}) {
        one<A, B, svs::DistanceL2, N>(c, N, v);
        one<A, B, svs::DistanceIP, N>(c, N, v);
        one<A, B, svs::DistanceCosineSimilarity, N>(c, N, v);
    }
}
template <typename A, typename B> void fixed(Case& c) {
    fixed_one<A, B, 1>(c);
    fixed_one<A, B, 8>(c);
    fixed_one<A, B, 13>(c);
    fixed_one<A, B, 64>(c);
    fixed_one<A, B, 100>(c);
    fixed_one<A, B, 129>(c);
    c.distinct(fmt::format("{}", c.index()));
}
} // namespace ds
#define DS(A, B, tag)                                                                       \
    VH_SCENARIO(dims_##tag, "C10 C14", 320, 6400) { ds::dims<A, B>(c); }                        \
    VH_SCENARIO(fixed_##tag, "C10 C14", 24, 600) { ds::fixed<A, B>(c); }
