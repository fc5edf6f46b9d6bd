// Operands and option values of the pointer interfaces.
#pragma once
#include "../opkit.hpp"
#if IFACE == 1
    #include <tlapack.h>
    #define CC2(a, b) a##b
    #define CC1(a, b) CC2(a, b)
    #define FN(f) CC1(CP, f)
    #define IFN(f) CC1(i, CC1(CP, f))
    #define PFX c_
    #define ATTR (sim::A_CAPI)
#elif IFACE == 2
    #include <tlapack_cblas.h>
    #define CC2(a, b) a##b
    #define CC1(a, b) CC2(a, b)
    #define FN(f) CC1(cblas_, CC1(CP, f))
    #define IFN(f) CC1(cblas_i, CC1(CP, f))
    #define PFX cb_
    #define ATTR (sim::A_CAPI)
#else
    #include <tlapack/legacy_api/blas.hpp>
    #define FN(f) tlapack::legacy::f
    #define IFN(f) tlapack::legacy::iamax
    #define PFX l_
    #define ATTR (sim::A_CPP)
#endif
#undef I

namespace capi {
using namespace sim;
using kit::G;
using kit::Re;
using kit::isC;
using idx = std::size_t;
using inc_t = long;

// option values
#if IFACE == 1
inline auto LAY(int row) { return row < 0 ? (::Layout)'?' : row ? ::RowMajor : ::ColMajor; }
inline auto OPS(int o) { return o < 0 ? (::Op)'?' : o == 0 ? ::NoTrans : o == 1 ? ::Trans : ::ConjTrans; }
inline auto UPL(int u) { return u < 0 ? (::Uplo)'?' : u ? ::Upper : ::Lower; }
inline auto DIA(int d) { return d < 0 ? (::Diag)'?' : d ? ::Unit : ::NonUnit; }
inline auto SID(int d) { return d < 0 ? (::Side)'?' : d ? ::Left : ::Right; }
#elif IFACE == 2
inline auto LAY(int row) { return row < 0 ? (CBLAS_LAYOUT)99 : row ? CblasRowMajor : CblasColMajor; }
inline auto OPS(int o) { return o < 0 ? (CBLAS_TRANSPOSE)99 : o == 0 ? CblasNoTrans : o == 1 ? CblasTrans : CblasConjTrans; }
inline auto UPL(int u) { return u < 0 ? (CBLAS_UPLO)99 : u ? CblasUpper : CblasLower; }
inline auto DIA(int d) { return d < 0 ? (CBLAS_DIAG)99 : d ? CblasUnit : CblasNonUnit; }
inline auto SID(int d) { return d < 0 ? (CBLAS_SIDE)99 : d ? CblasLeft : CblasRight; }
#else
inline auto LAY(int row) { return row < 0 ? (tlapack::Layout)'?' : row ? tlapack::Layout::RowMajor : tlapack::Layout::ColMajor; }
inline auto OPS(int o) { return o < 0 ? (tlapack::Op)'?' : o == 0 ? tlapack::Op::NoTrans : o == 1 ? tlapack::Op::Trans : tlapack::Op::ConjTrans; }
inline auto UPL(int u) { return u < 0 ? (tlapack::Uplo)'?' : u ? tlapack::Uplo::Upper : tlapack::Uplo::Lower; }
inline auto DIA(int d) { return d < 0 ? (tlapack::Diag)'?' : d ? tlapack::Diag::Unit : tlapack::Diag::NonUnit; }
inline auto SID(int d) { return d < 0 ? (tlapack::Side)'?' : d ? tlapack::Side::Left : tlapack::Side::Right; }
#endif

#if IFACE == 3
template <class T> T* P(T* p) { return p; }
template <class T> T V(T v) { return v; }
template <class T> T F(T v) { return v; }
#else
inline float* P(float* p) { return p; }
inline double* P(double* p) { return p; }
inline float _Complex* P(std::complex<float>* p) { return (float _Complex*)p; }
inline double _Complex* P(std::complex<double>* p) { return (double _Complex*)p; }
inline float V(float v) { return v; }
inline double V(double v) { return v; }
inline float _Complex V(std::complex<float> v) { return *(float _Complex*)&v; }
inline double _Complex V(std::complex<double> v) { return *(double _Complex*)&v; }
inline float F(float v) { return v; }
inline double F(double v) { return v; }
inline std::complex<float> F(float _Complex v) { return *(std::complex<float>*)&v; }
inline std::complex<double> F(double _Complex v) { return *(std::complex<double>*)&v; }
#endif

template <class T> struct Mx {
    T* p; idx m, n, ld; bool row;
    T& operator()(idx i, idx j) const { return row ? p[i * ld + j] : p[i + j * ld]; }
};
template <class T> struct Vx { T* p; idx n; inc_t inc; };

template <class T> Mx<T> cmat(G& g, const char* name, bool row, idx m, idx n, int cls, int badk = -1)
{
    idx lo = row ? n : m, hi = row ? m : n;
    idx ld = lo + g.r.below(3);
    if (!ld) ld = 1;
    T* p = (T*)sim_operand(g.b, name, kit::kindof<T>::v, sizeof(T), ld * hi, cls);
    for (idx j = 0; j < hi; ++j) {
        if (ld > lo) sim_setcls(g.b, p + lo + j * ld, (ld - lo) * sizeof(T), C_NOREF);
        if (cls == C_IN || cls == C_INOUT)
            for (idx i = 0; i < lo; ++i) p[i + j * ld] = g.val<T>();
    }
    if (badk >= 0 && lo > 0 && g.bad(badk)) ld = lo - 1;
    return Mx<T>{p, m, n, ld, row};
}
template <class T> void ctri(G& g, Mx<T> A, bool upper, bool unit = false)
{
    for (idx j = 0; j < A.n; ++j)
        for (idx i = 0; i < A.m; ++i)
            if ((upper ? i > j : i < j) || (unit && i == j)) sim_setcls(g.b, &A(i, j), sizeof(T), C_NOREF);
}
template <class T> void cimag(G& g, Mx<T> A, int cls)
{
    if constexpr (isC<T>::value)
        for (idx i = 0; i < std::min(A.m, A.n); ++i) sim_setcls(g.b, (char*)&A(i, i) + sizeof(T) / 2, sizeof(T) / 2, cls);
    else (void)cls;
}
template <class T> Vx<T> cvec(G& g, const char* name, idx n, int cls, int badk = -1, bool neg = true)
{
    inc_t inc = g.flip() ? 1 : 2 + (inc_t)g.r.below(2);
    if (neg && g.flip(0.3)) inc = -inc;
    idx a = (idx)std::abs(inc), len = n ? 1 + (n - 1) * a : 0;
    T* p = (T*)sim_operand(g.b, name, kit::kindof<T>::v, sizeof(T), len, cls);
    for (idx i = 0; i < len; ++i)
        if (i % a) sim_setcls(g.b, p + i, sizeof(T), C_NOREF);
        else if (cls == C_IN || cls == C_INOUT) p[i] = g.val<T>();
    if (badk >= 0 && g.bad(badk)) inc = 0;
    return Vx<T>{p, n, inc};
}
// the dimension of a call that is to be rejected is at least 1
inline idx cdim(G& g) { return g.variant >= 100 ? g.dim1() : (g.flip(0.04) ? 0 : g.dim1()); }
inline int nb(G& g, int k, int v) { return g.bad(k) ? -1 : v; }

#define COP(f) template <class T> static void f(sim::Build* b_, const sim::BuildParams* p_)
#define CBEGIN G g(b_, p_); using R = Re<T>; (void)sizeof(R); constexpr bool CX = isC<T>::value; (void)CX; g.flags(F_NOALLOC);

}  // namespace capi
