// A user-defined real number type: a double whose arithmetic may throw.
// As the library's noexcept declarations require, classification (isnan,
// isinf), negation, copying and the machine constants do not throw.
#pragma once
#include <cmath>
#include <complex>
#include <exception>
#include <limits>
#include "../simrt.hpp"
#include <tlapack/plugins/legacyArray.hpp>
#include <tlapack/plugins/stdvector.hpp>

namespace fnum {
struct Fault : std::exception {
    const char* what() const noexcept override { return "SIMFAULT"; }
};
inline void tick() { if (sim::sim_fault_arith()) throw Fault(); }

struct F {
    double v;
    F() = default;
    template <class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>
    constexpr F(X x) noexcept : v((double)x) {}
    explicit constexpr operator double() const noexcept { return v; }
    explicit constexpr operator float() const noexcept { return (float)v; }
    explicit constexpr operator int() const noexcept { return (int)v; }
    explicit constexpr operator long() const noexcept { return (long)v; }
    explicit constexpr operator size_t() const noexcept { return (size_t)v; }
    F& operator+=(const F& o) { tick(); v += o.v; return *this; }
    F& operator-=(const F& o) { tick(); v -= o.v; return *this; }
    F& operator*=(const F& o) { tick(); v *= o.v; return *this; }
    F& operator/=(const F& o) { tick(); v /= o.v; return *this; }
    friend constexpr F operator-(const F& a) noexcept { return F(-a.v); }
    friend constexpr F operator+(const F& a) noexcept { return a; }
#define OP2(o) friend F operator o(const F& a, const F& b) { tick(); return F(a.v o b.v); }
    OP2(+) OP2(-) OP2(*) OP2(/)
#undef OP2
#define CMP(o) friend bool operator o(const F& a, const F& b) { tick(); return a.v o b.v; }
    CMP(==) CMP(!=) CMP(<) CMP(>) CMP(<=) CMP(>=)
#undef CMP
#define FN1(f) friend F f(const F& a) { tick(); return F(std::f(a.v)); }
    FN1(sqrt) FN1(abs) FN1(exp) FN1(log) FN1(log2) FN1(log10) FN1(sin) FN1(cos) FN1(tan) FN1(atan) FN1(ceil) FN1(floor) FN1(round) FN1(trunc)
#undef FN1
    friend F pow(const F& a, const F& b) { tick(); return F(std::pow(a.v, b.v)); }
    friend F fabs(const F& a) { tick(); return F(std::fabs(a.v)); }
    friend F atan2(const F& a, const F& b) { tick(); return F(std::atan2(a.v, b.v)); }
    friend F hypot(const F& a, const F& b) { tick(); return F(std::hypot(a.v, b.v)); }
    friend constexpr bool isnan(const F& a) noexcept { return a.v != a.v; }
    friend constexpr bool isinf(const F& a) noexcept { return a.v - a.v != 0 && a.v == a.v; }
    friend constexpr bool isfinite(const F& a) noexcept { return a.v - a.v == 0; }
};
}  // namespace fnum

template <> struct std::numeric_limits<fnum::F> : std::numeric_limits<double> {
    using D = std::numeric_limits<double>;
    using F = fnum::F;
    static constexpr F min() noexcept { return D::min(); }
    static constexpr F max() noexcept { return D::max(); }
    static constexpr F lowest() noexcept { return D::lowest(); }
    static constexpr F epsilon() noexcept { return D::epsilon(); }
    static constexpr F round_error() noexcept { return D::round_error(); }
    static constexpr F infinity() noexcept { return D::infinity(); }
    static constexpr F quiet_NaN() noexcept { return D::quiet_NaN(); }
    static constexpr F signaling_NaN() noexcept { return D::signaling_NaN(); }
    static constexpr F denorm_min() noexcept { return D::denorm_min(); }
};

namespace tlapack {
namespace traits {
    template <> struct real_type_traits<fnum::F, int> {
        using type = fnum::F;
        constexpr static bool is_real = true;
    };
    template <> struct complex_type_traits<fnum::F, int> {
        using type = std::complex<fnum::F>;
        constexpr static bool is_complex = false;
    };
}  // namespace traits
}  // namespace tlapack

#include <tlapack/base/constants.hpp>
namespace tlapack {
#define K(f) template <> inline constexpr fnum::F f<fnum::F>() noexcept { return fnum::F(f<double>()); }
K(ulp) K(uroundoff) K(safe_min) K(safe_max) K(blue_min) K(blue_max) K(blue_scalingMin) K(blue_scalingMax)
#undef K
}  // namespace tlapack
