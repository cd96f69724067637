// Checked narrowing and half precision (C11).
#include "gen.h"

#include "svs/lib/float16.h"
#include "svs/lib/narrow.h"

using namespace vh;

namespace {
template <typename U> std::vector<U> interesting(Rng& r, size_t extra) {
    std::vector<U> v;
    if constexpr (std::is_same_v<U, svs::Float16>) {
        for (size_t i = 0; i < extra; ++i) v.push_back(svs::Float16::from_raw(r()));
        for (unsigned x : {0, 0x8000, 0x3c00, 0xbc00, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x7e00, 1, 0x3ff, 0x400}) v.push_back(svs::Float16::from_raw(x));
    } else if constexpr (std::is_integral_v<U>) {
        using L = std::numeric_limits<U>;
        for (int b = 0; b <= L::digits; ++b)
            for (int e = -2; e <= 2; ++e) {
                unsigned __int128 p = (unsigned __int128)1 << b;
                __int128 x = (__int128)p + e;
                for (int s : {1, -1}) {
                    __int128 y = x * s;
                    if (y >= L::min() && y <= L::max()) v.push_back(U(y));
                }
            }
        for (int e = 0; e < 4; ++e) v.push_back(L::max() - e), v.push_back(L::min() + e);
        for (size_t i = 0; i < extra; ++i) v.push_back(U(r() >> r.below(64)));
    } else {
        using L = std::numeric_limits<U>;
        v = {U(0), U(-0.0), U(0.5), U(-0.5), U(1.5), L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN(), L::epsilon()};
        for (int b = -30; b <= 70; ++b)
            for (int e = -2; e <= 2; ++e) {
                U p = std::ldexp(U(1), b);
                U q = p;
                for (int k = 0; k < std::abs(e); ++k) q = std::nextafter(q, e > 0 ? L::infinity() : U(0));
                for (U s : {U(1), U(-1)}) v.push_back(s * q), v.push_back(s * (p + e));
            }
        for (size_t i = 0; i < extra; ++i) {
            if constexpr (sizeof(U) == 4) {
                uint32_t b = r();
                U x;
                std::memcpy(&x, &b, 4);
                v.push_back(x);
            } else {
                uint64_t b = r();
                U x;
                std::memcpy(&x, &b, 8);
                v.push_back(x);
            }
            v.push_back(U(r.in(-70000, 70000)));
            v.push_back(U(double(r.in(-1000000, 1000000)) / 8));
        }
    }
    return v;
}
// Exact value as a long double (64 bits of mantissa hold every type here).
template <typename U> long double ld(U u) {
    if constexpr (std::is_same_v<U, svs::Float16>) return (long double)(float(u));
    else return (long double)(u);
}
// Is there a T of the same mathematical value?
template <typename T, typename U> bool representable(U u) {
    long double x = ld(u);
    if (std::isnan(x)) return false;
    if constexpr (std::is_same_v<T, svs::Float16>) {
        if (std::isinf(x)) return true;
        if (std::fabs(x) > 65504) return false;
        // a multiple of the spacing of halves at this magnitude
        int e = std::max(std::ilogb(x == 0 ? 1.0L : x), -14);
        long double s = std::ldexp(x, 10 - e);
        return s == std::nearbyint(s);
    } else if constexpr (std::is_integral_v<T>) {
        return x == std::floor(x) && x >= (long double)std::numeric_limits<T>::min() && x <= (long double)std::numeric_limits<T>::max();
    } else {
        return std::isinf(x) || (std::fabs(x) <= (long double)std::numeric_limits<T>::max() && (long double)(T)x == x);
    }
}
// Opaque to the optimizer.
template <typename U> U launder(U u) {
    asm volatile("" : "+m"(u));
    return u;
}
template <typename T, typename U> void narrow_pair(Case& c) {
    if constexpr (!std::is_same_v<T, U>) {
        for (U raw : interesting<U>(c.rng, c.thorough() ? 20000 : 300)) {
            U u = launder(raw);
            bool ok = representable<T>(u);
            bool threw = false;
            T t{};
            try {
                t = svs::lib::narrow<T>(u);
            } catch (const svs::lib::narrowing_error&) {
                threw = true;
            }
            if (!c.expect(threw == !ok && (threw || ld(t) == ld(u)), fmt::format("C11:narrow-{}-from-{}", tname<T>(), tname<U>()), "narrow<{}>({} {}) {}", tname<T>(), tname<U>(), (double)ld(u), threw ? "threw" : fmt::format("gave {}", (double)ld(t)))) return;
            if (ok) {
                T v = svs::lib::relaxed_narrow<T>(u);
                c.expect(ld(v) == ld(u), "C11:relaxed", "relaxed_narrow<{}>({} {})", tname<T>(), tname<U>(), (double)ld(u));
            } else if constexpr (!svs::allow_lossy_conversion<U, T>) {
                bool th = false;
                try {
                    (void)svs::lib::relaxed_narrow<T>(u);
                } catch (const svs::lib::narrowing_error&) {
                    th = true;
                }
                c.expect(th, "C11:relaxed", "relaxed_narrow<{}>({} {}) did not throw", tname<T>(), tname<U>(), (double)ld(u));
            }
            c.obs(ok ? "narrow_exact" : "narrow_refused");
        }
    }
}
template <typename T> void narrow_to(Case& c) {
    narrow_pair<T, int8_t>(c);
    narrow_pair<T, uint8_t>(c);
    narrow_pair<T, int16_t>(c);
    narrow_pair<T, uint16_t>(c);
    narrow_pair<T, int32_t>(c);
    narrow_pair<T, uint32_t>(c);
    narrow_pair<T, int64_t>(c);
    narrow_pair<T, uint64_t>(c);
    narrow_pair<T, float>(c);
    narrow_pair<T, double>(c);
    if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, int32_t> || std::is_same_v<T, uint64_t>) narrow_pair<T, svs::Float16>(c);
    c.distinct(fmt::format("{}", c.index()));
}
// Half precision: reference by exact arithmetic.
double half_value(uint16_t h) {
    int e = (h >> 10) & 31, m = h & 1023;
    double v = e == 0 ? std::ldexp(double(m), -24) : std::ldexp(double(m + 1024), e - 25);
    return h & 0x8000 ? -v : v;
}
// Nearest half (ties to even), for finite x.
uint16_t half_of(double x) {
    uint16_t sign = std::signbit(x) ? 0x8000 : 0;
    double a = std::fabs(x);
    if (a == 0) return sign;
    int e = std::max(std::ilogb(a), -14);
    double s = std::nearbyint(std::ldexp(a, 10 - e)); // exact scaling; ties to even
    double v = std::ldexp(s, e - 10);
    if (v >= 65536.0) return sign | 0x7c00;
    if (v < std::ldexp(1.0, -14)) return sign | uint16_t(std::ldexp(v, 24));
    int f = std::ilogb(v);
    return sign | uint16_t((f + 15) << 10) | uint16_t(std::ldexp(v, 10 - f) - 1024);
}
bool is_nan16(uint16_t h) { return (h & 0x7c00) == 0x7c00 && (h & 1023); }
} // namespace

VH_SCENARIO(narrowing, "C11 C14", 22, 220) {
    switch (c.index() % 11) {
        case 0: narrow_to<int8_t>(c); break;
        case 1: narrow_to<uint8_t>(c); break;
        case 2: narrow_to<int16_t>(c); break;
        case 3: narrow_to<uint16_t>(c); break;
        case 4: narrow_to<int32_t>(c); break;
        case 5: narrow_to<uint32_t>(c); break;
        case 6: narrow_to<int64_t>(c); break;
        case 7: narrow_to<uint64_t>(c); break;
        case 8: narrow_to<float>(c); break;
        case 9: narrow_to<double>(c); break;
        case 10: // only floating-point sources convert to halves implicitly through float
            narrow_pair<svs::Float16, float>(c);
            c.distinct("half");
            break;
    }
}

// Every half, both implementations.
VH_SCENARIO(half_decode, "C11 C14", 8, 8) {
    for (size_t i = c.index(); i < 65536; i += 8) {
        auto h = uint16_t(i);
        for (int slow = 0; slow < 2; ++slow) {
            float f = slow ? svs::float16::detail::float16_to_float_untyped_slow(launder(h)) : float(svs::Float16::from_raw(launder(h)));
            const char* n = slow ? "software" : "default";
            if (is_nan16(h)) {
                c.expect(std::isnan(f), "C11:half-decode", "{}: half {:#x} gives {}", n, h, f);
            } else if ((h & 0x7fff) == 0x7c00) {
                c.expect(std::isinf(f) && std::signbit(f) == !!(h & 0x8000), "C11:half-decode", "{}: half {:#x} gives {}", n, h, f);
            } else {
                c.expect(f == half_value(h) && std::signbit(f) == !!(h & 0x8000), "C11:half-decode", "{}: half {:#x} gives {} instead of {}", n, h, f, half_value(h));
                uint16_t back = slow ? svs::float16::detail::float_to_float16_untyped_slow(f) : svs::Float16(f).raw();
                c.expect(back == h, "C11:half-roundtrip", "{}: half {:#x} comes back as {:#x}", n, h, back);
            }
            c.obs("halves_decoded");
        }
        auto x = svs::Float16::from_raw(h);
        c.expect(x.raw() == h, "C11:half-raw", "raw {:#x} became {:#x}", h, x.raw());
        if (!is_nan16(h)) {
            c.expect(x == x && std::hash<svs::Float16>()(x) == std::hash<svs::Float16>()(svs::Float16(float(x))), "C11:half-equal", "half {:#x} differs from itself", h);
        }
    }
    c.expect(svs::Float16(0.0f) == svs::Float16(-0.0f) && std::hash<svs::Float16>()(svs::Float16(0.0f)) == std::hash<svs::Float16>()(svs::Float16(-0.0f)), "C11:half-zero", "zeros differ");
    c.distinct(fmt::format("{}", c.index()));
}
static void encode(Case& c, float f) {
    f = launder(f);
    for (int slow = 0; slow < 2; ++slow) {
        uint16_t h;
        if (slow) {
            h = svs::float16::detail::float_to_float16_untyped_slow(f);
        } else {
            svs::Float16 x(f), y = svs::Float16::from_raw(0x1234);
            y = f;
            h = x.raw();
            c.expect(y.raw() == h, "C11:half-assign", "{} constructs {:#x} but assigns {:#x}", f, h, y.raw());
        }
        const char* n = slow ? "software" : "default";
        if (std::isnan(f)) {
            c.expect(is_nan16(h), "C11:half-encode", "{}: NaN becomes {:#x}", n, h);
        } else {
            uint16_t want = std::isinf(f) ? (std::signbit(f) ? 0xfc00 : 0x7c00) : half_of(f);
            c.expect(h == want, "C11:half-encode", "{}: {} becomes {:#x} ({}) but the nearest half is {:#x}", n, f, h, half_value(h), want);
        }
        c.obs("floats_encoded");
    }
}
// Around every half and every midpoint between neighbouring halves.
VH_SCENARIO(half_encode_edges, "C11 C14", 8, 8) {
    for (size_t i = c.index(); i < 0x7c00; i += 8) {
        double a = half_value(i), b = i + 1 == 0x7c00 ? 65536.0 : half_value(i + 1);
        for (double x : {a, (a + b) / 2})
            for (float s : {1.0f, -1.0f}) {
                float f = s * float(x);
                float inf = std::numeric_limits<float>::infinity();
                for (float g : {f, std::nextafter(f, inf), std::nextafter(f, -inf), std::nextafter(std::nextafter(f, inf), inf), std::nextafter(std::nextafter(f, -inf), -inf)}) encode(c, g);
            }
    }
    c.distinct(fmt::format("{}", c.index()));
}
VH_SCENARIO(half_encode_random, "C11 C14", 16, 400) {
    auto& r = c.rng;
    for (int i = 0; i < 20000; ++i) {
        uint32_t b = r();
        if (r.chance(0.7)) b = (b & 0x807fffff) | (uint32_t(r.in(127 - 27, 127 + 17)) << 23); // near the range of halves
        float f;
        std::memcpy(&f, &b, 4);
        encode(c, f);
    }
    for (float f : {0.0f, -0.0f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::max(), std::numeric_limits<float>::lowest(), std::numeric_limits<float>::denorm_min(), 65504.0f, 65519.99f, 65520.0f, 65535.0f, 65536.0f}) encode(c, f);
    // Integers: exactly representable as float, or refused; then as that float.
    for (int i = 0; i < 2000; ++i) {
        int x = launder(int(r() >> r.below(32)));
        size_t y = launder(size_t(r() >> r.below(64)));
        bool th = false;
        svs::Float16 h;
        try {
            h = svs::Float16(x);
        } catch (const svs::lib::narrowing_error&) { th = true; }
        c.expect(th == !representable<float>(x) && (th || h.raw() == half_of(x)), "C11:half-int", "Float16({}) {}", x, th ? "threw" : "wrong");
        th = false;
        try {
            h = svs::Float16(y);
        } catch (const svs::lib::narrowing_error&) { th = true; }
        c.expect(th == !representable<float>(y) && (th || h.raw() == half_of(double(y))), "C11:half-int", "Float16({}) {}", y, th ? "threw" : "wrong");
        float f = r.normal() * 100, g = r.normal() * 100;
        svs::Float16 a(f), b(g);
        float fa = half_value(a.raw()), fb = half_value(b.raw());
        c.expect(a + b == fa + fb && a * b == fa * fb && (a < b) == (fa < fb) && (a == b) == (fa == fb), "C11:half-arithmetic", "{} {}", fa, fb);
    }
    c.distinct(fmt::format("{}", c.index()));
}
