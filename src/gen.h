// Dataset generators and exact reference computations shared by the drivers.
#pragma once
#include "vh.h"

#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/lib/float16.h"

#include <algorithm>
#include <limits>
#include <numeric>

namespace vh {

template <typename T> constexpr double as_double(T x) {
    if constexpr (std::is_same_v<T, svs::Float16>) {
        return static_cast<double>(static_cast<float>(x));
    } else {
        return static_cast<double>(x);
    }
}
template <typename T> T from_double(double x) {
    if constexpr (std::is_same_v<T, svs::Float16>) {
        return svs::Float16(static_cast<float>(x));
    } else if constexpr (std::is_integral_v<T>) {
        x = std::nearbyint(x);
        x = std::max(x, static_cast<double>(std::numeric_limits<T>::min()));
        x = std::min(x, static_cast<double>(std::numeric_limits<T>::max()));
        return static_cast<T>(x);
    } else {
        return static_cast<T>(x);
    }
}
template <typename T> const char* tname() {
    if constexpr (std::is_same_v<T, float>) return "float";
    if constexpr (std::is_same_v<T, double>) return "double";
    if constexpr (std::is_same_v<T, svs::Float16>) return "float16";
    if constexpr (std::is_same_v<T, int8_t>) return "int8";
    if constexpr (std::is_same_v<T, uint8_t>) return "uint8";
    if constexpr (std::is_same_v<T, int16_t>) return "int16";
    if constexpr (std::is_same_v<T, uint16_t>) return "uint16";
    if constexpr (std::is_same_v<T, int32_t>) return "int32";
    if constexpr (std::is_same_v<T, uint32_t>) return "uint32";
    if constexpr (std::is_same_v<T, int64_t>) return "int64";
    if constexpr (std::is_same_v<T, uint64_t>) return "uint64";
    return "?";
}

// A plain matrix: the drivers' own copy of what they stored.
template <typename T> struct Mat {
    size_t n = 0, d = 0;
    std::vector<T> v;
    Mat() = default;
    Mat(size_t n_, size_t d_)
        : n{n_}
        , d{d_}
        , v(n_ * d_) {}
    T* row(size_t i) { return v.data() + i * d; }
    const T* row(size_t i) const { return v.data() + i * d; }
    std::span<const T> span(size_t i) const { return {row(i), d}; }
    svs::data::ConstSimpleDataView<T> cview() const { return view(); }
    svs::data::ConstSimpleDataView<T> view() const {
        return svs::data::ConstSimpleDataView<T>(v.data(), n, d);
    }
};

enum class Shape { Gauss, Uniform, Cluster, Grid, Dups, Constant, Line, Scaled };
inline const char* shape_name(Shape s) {
    switch (s) {
        case Shape::Gauss: return "gauss";
        case Shape::Uniform: return "uniform";
        case Shape::Cluster: return "cluster";
        case Shape::Grid: return "grid";
        case Shape::Dups: return "dups";
        case Shape::Constant: return "constant";
        case Shape::Line: return "line";
        case Shape::Scaled: return "scaled";
    }
    return "?";
}

template <typename T> Mat<T> make_data(Rng& r, size_t n, size_t d, Shape shape) {
    Mat<T> m(n, d);
    // Unit of spread: integers need a larger one to be distinct.
    double u = std::is_integral_v<T> ? 40.0 : 1.0;
    double off = std::is_same_v<T, uint8_t> ? 120.0 : 0.0;
    std::vector<std::vector<double>> centers;
    if (shape == Shape::Cluster) {
        for (int i = 0; i < 6; ++i) {
            std::vector<double> c(d);
            for (auto& x : c) x = 2 * u * r.normal();
            centers.push_back(c);
        }
    }
    size_t base = std::max<size_t>(1, n / 4);
    for (size_t i = 0; i < n; ++i) {
        T* p = m.row(i);
        if (shape == Shape::Dups && i >= base) {
            std::copy_n(m.row(r.below(base)), d, p);
            continue;
        }
        if (shape == Shape::Constant && i > 0) {
            std::copy_n(m.row(0), d, p);
            continue;
        }
        double t = static_cast<double>(i);
        size_t cl = r.below(6);
        double sc = std::pow(10.0, r.in(-2, 2));
        for (size_t j = 0; j < d; ++j) {
            double x = 0;
            switch (shape) {
                case Shape::Gauss:
                case Shape::Dups:
                case Shape::Constant: x = u * r.normal(); break;
                case Shape::Uniform: x = u * (2 * r.uniform() - 1); break;
                case Shape::Cluster: x = centers[cl][j] * 0.5 + 0.3 * u * r.normal(); break;
                case Shape::Grid: x = double(r.in(-2, 2)) * (u / 4); break;
                case Shape::Line: x = t * double(j + 1) * 0.01 * u / 4; break;
                case Shape::Scaled: x = sc * u * r.normal() * 0.1; break;
            }
            p[j] = from_double<T>(x + off);
        }
    }
    return m;
}

// Zero vectors have no direction: keep them out of data meant for the cosine.
template <typename T> void no_zeros(Mat<T>& m) {
    for (size_t i = 0; i < m.n; ++i) {
        auto* p = m.row(i);
        if (std::all_of(p, p + m.d, [](T x) { return as_double(x) == 0; })) {
            p[0] = from_double<T>(3);
        }
    }
}

template <typename Data, typename T> Data to_data(const Mat<T>& m) {
    Data data(m.n, m.d);
    for (size_t i = 0; i < m.n; ++i) {
        data.set_datum(i, m.span(i));
    }
    return data;
}

enum class Metric { L2, IP, Cos };
inline const char* metric_name(Metric m) {
    return m == Metric::L2 ? "L2" : m == Metric::IP ? "IP" : "Cos";
}
template <typename D> constexpr Metric metric_of() {
    if constexpr (std::is_same_v<D, svs::distance::DistanceL2>) {
        return Metric::L2;
    } else if constexpr (std::is_same_v<D, svs::distance::DistanceIP>) {
        return Metric::IP;
    } else {
        return Metric::Cos;
    }
}
// Score plus the magnitude that bounds the rounding error of a float evaluation.
struct Exact {
    double value, scale;
};
template <typename A, typename B> Exact exact(Metric m, const A* a, const B* b, size_t d) {
    long double s = 0, na = 0, nb = 0, mag = 0;
    for (size_t i = 0; i < d; ++i) {
        long double x = as_double(a[i]), y = as_double(b[i]);
        if (m == Metric::L2) {
            s += (x - y) * (x - y);
            // rounding of x - y is relative to the difference for floats
            mag += (x - y) * (x - y);
        } else {
            s += x * y;
            mag += std::fabs(x * y);
            na += x * x;
            nb += y * y;
        }
    }
    if (m == Metric::Cos) {
        long double den = std::sqrt(na) * std::sqrt(nb);
        return {double(s / den), double(mag / den)};
    }
    return {double(s), double(mag)};
}
// "better" under the metric
inline bool better(Metric m, double a, double b) { return m == Metric::L2 ? a < b : a > b; }
// Tolerance for float evaluation in any summation order over d terms.
inline double tol(const Exact& e, size_t d) {
    return 1e-6 * (4.0 + 0.5 * double(d)) * e.scale + 1e-30;
}

struct Scored {
    size_t id;
    double score, scale;
};
// Best-first exact ranking.
template <typename Q, typename T>
std::vector<Scored> rank_all(
    Metric m, const Q* q, const Mat<T>& data, const std::function<bool(size_t)>& ok = {}
) {
    std::vector<Scored> r;
    for (size_t i = 0; i < data.n; ++i) {
        if (ok && !ok(i)) continue;
        auto e = exact(m, q, data.row(i), data.d);
        r.push_back({i, e.value, e.scale});
    }
    std::sort(r.begin(), r.end(), [&](auto& a, auto& b) {
        return a.score == b.score ? a.id < b.id : better(m, a.score, b.score);
    });
    return r;
}

// First bytes of anything, for witnesses.
template <typename C> std::string head(const C& c, size_t n = 12) {
    std::string s = "[";
    size_t i = 0;
    for (auto&& x : c) {
        if (i++ == n) {
            s += "...";
            break;
        }
        s += fmt::format("{}{}", i > 1 ? "," : "", x);
    }
    return s + "]";
}

} // namespace vh
