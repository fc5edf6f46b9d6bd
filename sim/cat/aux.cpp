// Norms, copies, scalings, sorting, random vectors, plane rotation sequences, scalar helpers.
#include "../opkit.hpp"
#include <iostream>
#include <iomanip>
#include <limits>
#include <tlapack/lapack/conjugate.hpp>
#include <tlapack/lapack/hasinf.hpp>
#include <tlapack/lapack/hasnan.hpp>
#include <tlapack/lapack/infnorm_colmajor.hpp>
#include <tlapack/lapack/infnorm_hermitian_colmajor.hpp>
#include <tlapack/lapack/infnorm_symmetric_colmajor.hpp>
#include <tlapack/lapack/infnorm_triangular_colmajor.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/ladiv.hpp>
#include <tlapack/lapack/lae2.hpp>
#include <tlapack/lapack/laed4.hpp>
#include <tlapack/lapack/laed5.hpp>
#include <tlapack/lapack/laed6.hpp>
#include <tlapack/lapack/laev2.hpp>
#include <tlapack/lapack/lamrg.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lanhe.hpp>
#include <tlapack/lapack/lansy.hpp>
#include <tlapack/lapack/lantr.hpp>
#include <tlapack/lapack/lapy2.hpp>
#include <tlapack/lapack/lapy3.hpp>
#include <tlapack/lapack/larnv.hpp>
#include <tlapack/lapack/lascl.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lasrt.hpp>
#include <tlapack/lapack/lassq.hpp>
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/rot_sequence3.hpp>
#include <tlapack/lapack/rscl.hpp>
#include <tlapack/lapack/transpose.hpp>
#include <tlapack/lapack/trevc_protect.hpp>

using namespace sim;

namespace {
using tlapack::Uplo;
template <class G> tlapack::Norm norm_(G& g, int k = -1)
{
    using tlapack::Norm;
    if (k >= 0 && g.bad(k)) return (Norm)'?';
    return g.pick({Norm::Max, Norm::One, Norm::Inf, Norm::Fro});
}
template <class G> Uplo uplo7(G& g)
{
    return g.pick({Uplo::General, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::Upper, Uplo::Lower, Uplo::StrictUpper, Uplo::StrictLower});
}
inline bool uses(Uplo u, size_t i, size_t j)
{
    switch (u) {
        case Uplo::General: return true;
        case Uplo::UpperHessenberg: return i <= j + 1;
        case Uplo::LowerHessenberg: return j <= i + 1;
        case Uplo::Upper: return i <= j;
        case Uplo::Lower: return i >= j;
        case Uplo::StrictUpper: return i < j;
        case Uplo::StrictLower: return i > j;
        default: return false;
    }
}
template <class G, class M> void only(G& g, M& A, Uplo u)
{
    for (size_t j = 0; j < A.n; ++j)
        for (size_t i = 0; i < A.m; ++i)
            if (!uses(u, i, j)) g.setc(A, i, j, sim::C_NOREF);
}
}

OPF(lange)
{
    BEGIN
    auto nt = norm_(g, 1);
    auto A = g.mat<T, L>("A", g.dim(), g.dim(), C_IN);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.bad(1);
    g.call([=, &ret] { ret = tlapack::lange(nt, A); });
}
OPF(lansy)
{
    BEGIN
    auto nt = norm_(g, 1);
    auto u = g.bup(2, g.uplo());
    idx n = g.dim();
    auto A = g.mat<T, L>("A", n, n, C_IN);
    if (u == Uplo::Upper || u == Uplo::Lower) g.tri(A, u);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.bad(1), g.bad(2);
    g.call([=, &ret] { ret = tlapack::lansy(nt, u, A); });
}
OPF(lanhe)
{
    BEGIN
    auto nt = norm_(g, 1);
    auto u = g.bup(2, g.uplo());
    idx n = g.dim();
    auto A = g.mat<T, L>("A", n, n, C_IN);
    if (u == Uplo::Upper || u == Uplo::Lower) g.tri(A, u);
    g.imagdiag(A, C_NOREF);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.bad(1), g.bad(2);
    g.call([=, &ret] { ret = tlapack::lanhe(nt, u, A); });
}
OPF(lantr)
{
    BEGIN
    auto nt = norm_(g, 1);
    auto u = g.bup(2, g.uplo());
    auto d = g.bdg(3, g.diag_());
    idx m = g.dim(), n = g.dim();
    auto A = g.mat<T, L>("A", m, n, C_IN);
    if (u == Uplo::Upper || u == Uplo::Lower) g.tri(A, u);
    if (d == Diag::Unit) g.diagcls(A, C_NOREF);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.bad(1), g.bad(2), g.bad(3);
    g.call([=, &ret] { ret = tlapack::lantr(nt, u, d, A); });
}
OPF(infnorm_colmajor)
{
    BEGIN
    auto A = g.mat<T, L>("A", g.dim(), g.dim(), C_IN);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.nan(1);
    auto w = tlapack::infnorm_colmajor_worksize<T>(A);
    g.pair_<R, L>(w, [=, &ret](auto& W) { ret = tlapack::infnorm_colmajor_work(A, W); }, [=, &ret] { ret = tlapack::infnorm_colmajor(A); });
}
OPF(infnorm_symmetric)
{
    BEGIN
    auto u = g.bup(1, g.uplo());
    idx n = g.dim();
    auto A = g.mat<T, L>("A", n, n, C_IN);
    if (u == Uplo::Upper || u == Uplo::Lower) g.tri(A, u);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.nan(1);
    auto w = tlapack::infnorm_symmetric_colmajor_worksize<T>(u, A);
    g.pair_<R, L>(w, [=, &ret](auto& W) { ret = tlapack::infnorm_symmetric_colmajor_work(u, A, W); }, [=, &ret] { ret = tlapack::infnorm_symmetric_colmajor(u, A); });
}
OPF(infnorm_hermitian)
{
    BEGIN
    auto u = g.bup(1, g.uplo());
    idx n = g.dim();
    auto A = g.mat<T, L>("A", n, n, C_IN);
    if (u == Uplo::Upper || u == Uplo::Lower) g.tri(A, u);
    g.imagdiag(A, C_NOREF);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.nan(1);
    auto w = tlapack::infnorm_hermitian_colmajor_worksize<T>(u, A);
    g.pair_<R, L>(w, [=, &ret](auto& W) { ret = tlapack::infnorm_hermitian_colmajor_work(u, A, W); }, [=, &ret] { ret = tlapack::infnorm_hermitian_colmajor(u, A); });
}
OPF(infnorm_triangular)
{
    BEGIN
    auto u = g.bup(1, g.uplo());
    auto d = g.bdg(2, g.diag_());
    idx m = g.dim(), n = g.dim();
    auto A = g.mat<T, L>("A", m, n, C_IN);
    if (u == Uplo::Upper || u == Uplo::Lower) g.tri(A, u);
    if (d == Diag::Unit) g.diagcls(A, C_NOREF);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.nan(1);
    auto w = tlapack::infnorm_triangular_colmajor_worksize<T>(u, d, A);
    g.pair_<R, L>(w, [=, &ret](auto& W) { ret = tlapack::infnorm_triangular_colmajor_work(u, d, A, W); }, [=, &ret] { ret = tlapack::infnorm_triangular_colmajor(u, d, A); });
}
OPF(lacpy)
{
    BEGIN
    auto u = g.flip() ? Uplo::General : g.uplo();
    u = g.bup(1, u);
    idx m = g.dim(), n = g.dim();
    auto A = g.mat<T, L>("A", m, n, C_IN);
    auto B = g.mat<T, L>("B", m, n, C_OUT);
    if (u == Uplo::Upper || u == Uplo::Lower) { g.tri(A, u); g.tri(B, u); }
    g.flags(F_NOALLOC);
    g.nan(1);
    g.bad(1);
    g.call([=]() mutable { tlapack::lacpy(u, A, B); });
}
OPF(laset)
{
    BEGIN
    auto u = g.flip() ? Uplo::General : g.uplo();
    u = g.bup(1, u);
    T a = g.scalar<T>(), d = g.scalar<T>();
    auto A = g.mat<T, L>("A", g.dim(), g.dim(), C_OUT);
    if (u == Uplo::Upper || u == Uplo::Lower) g.tri(A, u);
    g.flags(F_NOALLOC);
    g.bad(1);
    g.call([=]() mutable { tlapack::laset(u, a, d, A); });
}
OPF(lascl)
{
    BEGIN
    auto u = g.bup(1, uplo7(g));
    R a = R(g.val<R>()), b = R(1.5 + 0.4 * g.val<R>());
    int sc = (int)g.r.below(6);
    if (sc == 0) b *= std::numeric_limits<R>::min();
    if (sc == 1) a *= std::numeric_limits<R>::min();
    if (sc == 2) { b *= std::numeric_limits<R>::min(); a *= std::numeric_limits<R>::max() / 4; }
    if (sc == 3) a = 0;
    if (g.bad(2)) b = R(0);
    if (g.bad(3)) b = std::numeric_limits<R>::quiet_NaN();
    if (g.bad(4)) a = std::numeric_limits<R>::quiet_NaN();
    idx m = g.dim(), n = g.dim();
    if (g.flip()) n = m;
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    if (!g.bad(1)) only(g, A, u);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.bad(1);
    g.call([=]() mutable { return tlapack::lascl(u, b, a, A); });
}
OPF(lascl_band)
{
    BEGIN
    R a = R(g.val<R>()), b = R(1.5 + 0.4 * g.val<R>());
    if (g.flip(0.2)) b *= std::numeric_limits<R>::min();
    idx m = g.dim1(), n = g.dim1();
    idx kl = g.r.below(m), ku = g.r.below(n);
    if (g.bad(1)) kl = m;
    if (g.bad(2)) ku = n;
    if (g.bad(3)) b = R(0);
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < m; ++i)
            if (!(i <= j + kl && j <= i + ku)) g.setc(A, i, j, C_NOREF);
    g.flags(F_NOALLOC);
    g.nan(1);
    tlapack::BandAccess acc(kl, ku);
    g.call([=]() mutable { return tlapack::lascl(acc, b, a, A); });
}
// hasnan / hasinf answer through a floating output: NaN when the answer is yes, otherwise a checksum
OPF(hasnan_mat)
{
    BEGIN
    auto u = g.bup(1, uplo7(g));
    idx m = g.dim(), n = g.dim();
    if (g.flip()) n = m;
    auto A = g.mat<T, L>("A", m, n, C_IN);
    if (!g.bad(1)) only(g, A, u);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.bad(1);
    g.call([=, &ret] {
        bool y = tlapack::hasnan(u, A);
        R s(0);
        for (idx j = 0; j < A.n; ++j)
            for (idx i = 0; i < A.m; ++i)
                if (uses(u, i, j)) { T v = A(i, j); if (v == v) s += tlapack::abs1(v) * R(1 + i + 3 * j); }
        ret = y ? std::numeric_limits<R>::quiet_NaN() : s;
    });
}
OPF(hasnan_band)
{
    BEGIN
    idx m = g.dim1(), n = g.dim1();
    idx kl = g.r.below(m), ku = g.r.below(n);
    auto A = g.mat<T, L>("A", m, n, C_IN);
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < m; ++i)
            if (!(i <= j + kl && j <= i + ku)) g.setc(A, i, j, C_NOREF);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    tlapack::BandAccess acc(kl, ku);
    g.call([=, &ret] {
        bool y = tlapack::hasnan(acc, A);
        R s(0);
        for (idx j = 0; j < n; ++j)
            for (idx i = 0; i < m; ++i)
                if (i <= j + kl && j <= i + ku) { T v = A(i, j); if (v == v) s += tlapack::abs1(v) * R(1 + i + 3 * j); }
        ret = y ? std::numeric_limits<R>::quiet_NaN() : s;
    });
}
OPF(hasnan_vec)
{
    BEGIN
    auto x = g.svec<T>("x", g.dim(), C_IN);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=, &ret] {
        bool y = tlapack::hasnan(x);
        R s(0);
        for (idx i = 0; i < x.n; ++i) { T v = x[i]; if (v == v) s += tlapack::abs1(v) * R(1 + i); }
        ret = y ? std::numeric_limits<R>::quiet_NaN() : s;
    });
}
template <class T> static void nan2inf(T& v)
{
    using R = kit::Re<T>;
    R inf = std::numeric_limits<R>::infinity();
    if constexpr (kit::isC<T>::value) {
        R a = v.real(), b = v.imag();
        v = T(a != a ? inf : a, b != b ? -inf : b);
    }
    else if (v != v) v = -inf;
}
OPF(hasinf_mat)
{
    BEGIN
    auto u = g.bup(1, uplo7(g));
    idx m = g.dim(), n = g.dim();
    if (g.flip()) n = m;
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    if (!g.bad(1)) only(g, A, u);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.bad(1);
    g.call([=, &ret]() mutable {
        R s(0);
        T z(0);
        for (idx j = 0; j < A.n; ++j)
            for (idx i = 0; i < A.m; ++i)
                if (uses(u, i, j)) { if (!(A(i, j) == A(i, j))) nan2inf(A(i, j)); }
        bool y = tlapack::hasinf(u, A);
        for (idx j = 0; j < A.n; ++j)
            for (idx i = 0; i < A.m; ++i)
                if (uses(u, i, j)) { T v = A(i, j); R q = tlapack::abs1(v); if (q - q == R(0)) s += q * R(1 + i + 3 * j); else A(i, j) = z; }
        ret = y ? std::numeric_limits<R>::quiet_NaN() : s;
    });
}
OPF(hasinf_band)
{
    BEGIN
    idx m = g.dim1(), n = g.dim1();
    idx kl = g.r.below(m), ku = g.r.below(n);
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < m; ++i)
            if (!(i <= j + kl && j <= i + ku)) g.setc(A, i, j, C_NOREF);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    tlapack::BandAccess acc(kl, ku);
    g.call([=, &ret]() mutable {
        R s(0);
        T z(0);
        for (idx j = 0; j < n; ++j)
            for (idx i = 0; i < m; ++i)
                if (i <= j + kl && j <= i + ku) { if (!(A(i, j) == A(i, j))) nan2inf(A(i, j)); }
        bool y = tlapack::hasinf(acc, A);
        for (idx j = 0; j < n; ++j)
            for (idx i = 0; i < m; ++i)
                if (i <= j + kl && j <= i + ku) { T v = A(i, j); R q = tlapack::abs1(v); if (q - q == R(0)) s += q * R(1 + i + 3 * j); else A(i, j) = z; }
        ret = y ? std::numeric_limits<R>::quiet_NaN() : s;
    });
}
OPF(hasinf_vec)
{
    BEGIN
    auto x = g.svec<T>("x", g.dim(), C_INOUT);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.call([=, &ret]() mutable {
        R s(0);
        T z(0);
        for (idx i = 0; i < x.n; ++i) if (!(x[i] == x[i])) nan2inf(x[i]);
        bool y = tlapack::hasinf(x);
        for (idx i = 0; i < x.n; ++i) { T v = x[i]; R q = tlapack::abs1(v); if (q - q == R(0)) s += q * R(1 + i); else x[i] = z; }
        ret = y ? std::numeric_limits<R>::quiet_NaN() : s;
    });
}
OPF(conjugate)
{
    BEGIN
    auto x = g.svec<T>("x", g.dim(), C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=]() mutable { tlapack::conjugate(x); });
}
OPF(transpose)
{
    BEGIN
    idx m = g.dim(), n = g.dim();
    if (g.flip(0.4)) { m = m * 3; n = n * 3; }
    auto A = g.mat<T, L>("A", m, n, C_IN);
    auto B = g.mat<T, L>("B", n + g.badd(1), m + g.badd(2), C_OUT);
    tlapack::TransposeOpts o;
    o.nx = g.bad(3) ? 1 : g.pick<size_t>({16, 2, 3, 5});
    bool cj = g.flip();
    g.flags(F_NOALLOC);
    g.nan(1);
    auto A2 = A;
    g.call([=]() mutable { if (cj) tlapack::conjtranspose(A2, B, o); else tlapack::transpose(A2, B, o); });
}
OPF(lassq)
{
    BEGIN
    auto x = g.svec<T>("x", g.dim(), C_IN);
    if (g.flip(0.5)) for (idx i = 0; i < x.n; ++i) { int k = (int)g.r.below(4); if (k == 1) const_cast<T&>(x[i]) *= R(1e30); if (k == 2) const_cast<T&>(x[i]) *= R(1e-30); }
    auto& scale = g.cell<R>("scale", C_INOUT);
    auto& sumsq = g.cell<R>("sumsq", C_INOUT);
    using std::abs;
    scale = g.flip(0.3) ? R(0) : abs(g.val<R>());
    sumsq = g.flip(0.3) ? R(0) : R(1) + abs(g.val<R>());
    g.flags(F_NOALLOC);
    g.call([=, &scale, &sumsq] { tlapack::lassq(x, scale, sumsq); });
}
OPF(rscl)
{
    BEGIN
    auto x = g.svec<T>("x", g.dim(), C_INOUT);
    T a = g.val<T>();
    int k = (int)g.r.below(5);
    R sc(1);
    if (k == 1) sc = std::numeric_limits<R>::min() / 8;
    if (k == 2) sc = std::numeric_limits<R>::max() / 4;
    a *= sc;
    if constexpr (CX) { if (k == 3) a = T(a.real(), 0); if (k == 4) a = T(0, a.imag()); }
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=]() mutable { tlapack::rscl(a, x); });
}
template <class T, class GG, class V1, class V2> static void rots(GG& g, V1& c, V2& s, size_t k)
{
    using R = kit::Re<T>;
    for (size_t i = 0; i < k; ++i) {
        R t = R(3.1) * g.template val<R>();
        using std::cos; using std::sin;
        c[i] = cos(t);
        if constexpr (kit::isC<T>::value) { R p = R(3.1) * g.template val<R>(); s[i] = T(sin(t) * cos(p), sin(t) * sin(p)); }
        else s[i] = sin(t);
    }
}
OPF(rot_sequence)
{
    BEGIN
    auto side = g.side();
    auto dir = g.direction();
    idx m = g.dim1(), n = g.dim1();
    idx k = (side == Side::Left ? m : n) - 1;
    auto c = g.vec<R>("c", k + g.badd(1), C_IN);
    auto s = g.vec<T>("s", k + g.badd(2), C_IN);
    rots<T>(g, c, s, k);
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    g.flags(F_NOALLOC);
    g.call([=]() mutable { return tlapack::rot_sequence(side, dir, c, s, A); });
}
OPF(rot_sequence3)
{
    BEGIN
    auto side = g.side();
    auto dir = g.direction();
    idx m = g.dim1() + g.r.below(4), n = g.dim1() + g.r.below(4), l = g.dimr(0, 4);
    if (g.flip(0.08)) { if (side == Side::Left) { n = 257 + g.r.below(8); m = g.dimr(3, 7); } else { m = 257 + g.r.below(8); n = g.dimr(3, 7); } }
    idx k = (side == Side::Left ? m : n) - 1;
    auto C = g.mat<R, L>("C", k + g.badd(1), l, C_IN);
    auto S = g.mat<T, L>("S", k + g.badd(2), l + g.badd(3), C_IN);
    for (idx j = 0; j < l; ++j) {
        std::vector<R> c(k);
        std::vector<T> s(k);
        rots<T>(g, c, s, k);
        for (idx i = 0; i < k; ++i) { C(i, j) = c[i]; S(i, j) = s[i]; }
    }
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::rot_sequence3(side, dir, C, S, A); });
}
#ifdef CREAL
OPF(ladiv)
{
    BEGIN
    auto& a = g.cell<R>("a", C_IN);
    auto& b = g.cell<R>("b", C_IN);
    auto& c = g.cell<R>("c", C_IN);
    auto& d = g.cell<R>("d", C_IN);
    auto& p = g.cell<R>("p", C_OUT);
    auto& q = g.cell<R>("q", C_OUT);
    R sc[4] = {R(1), std::numeric_limits<R>::max() / 2, std::numeric_limits<R>::min(), R(0)};
    if (g.flip(0.5)) { a *= sc[g.r.below(4)]; b *= sc[g.r.below(4)]; c *= sc[g.r.below(3)]; d *= sc[g.r.below(4)]; }
    g.flags(F_NOALLOC);
    g.call([&] { tlapack::ladiv(a, b, c, d, p, q); });
}
OPF(lae2)
{
    BEGIN
    auto& a = g.cell<R>("a", C_IN);
    auto& b = g.cell<R>("b", C_IN);
    auto& c = g.cell<R>("c", C_IN);
    auto& p = g.cell<R>("rt1", C_OUT);
    auto& q = g.cell<R>("rt2", C_OUT);
    if (g.flip(0.2)) b = 0;
    if (g.flip(0.2)) c = -a;
    g.flags(F_NOALLOC);
    g.call([&] { tlapack::lae2(a, b, c, p, q); });
}
OPF(laev2)
{
    BEGIN
    auto& a = g.cell<R>("a", C_IN);
    auto& b = g.cell<R>("b", C_IN);
    auto& c = g.cell<R>("c", C_IN);
    auto& p = g.cell<R>("rt1", C_OUT);
    auto& q = g.cell<R>("rt2", C_OUT);
    auto& cs = g.cell<R>("cs", C_OUT);
    auto& sn = g.cell<R>("sn", C_OUT);
    if (g.flip(0.2)) b = 0;
    if (g.flip(0.2)) c = -a;
    g.flags(F_NOALLOC);
    g.call([&] { tlapack::laev2(a, b, c, p, q, cs, sn); });
}
OPF(lapy2)
{
    BEGIN
    auto& a = g.cell<R>("x", C_IN);
    auto& b = g.cell<R>("y", C_IN);
    auto& ret = g.cell<R>("ret", C_OUT);
    if (g.flip(0.2)) a = 0;
    if (g.flip(0.2)) b = 0;
    g.nan(1);
    g.flags(F_NOALLOC);
    g.call([&] { ret = tlapack::lapy2(a, b); });
}
OPF(lapy3)
{
    BEGIN
    auto& a = g.cell<R>("x", C_IN);
    auto& b = g.cell<R>("y", C_IN);
    auto& c = g.cell<R>("z", C_IN);
    auto& ret = g.cell<R>("ret", C_OUT);
    if (g.flip(0.3)) a = 0;
    if (g.flip(0.3)) b = 0;
    if (g.flip(0.3)) c = 0;
    g.nan(1);
    g.flags(F_NOALLOC);
    g.call([&] { ret = tlapack::lapy3(a, b, c); });
}
OPF(lasrt)
{
    BEGIN
    idx n = g.flip(0.6) ? g.dim() : g.dimr(18, 70);
    char id = g.pick({'I', 'D', 'i', 'd'});
    auto d = g.vec<R>("d", n, C_INOUT);
    int k = (int)g.r.below(6);
    if (k == 1) for (idx i = 0; i < n; ++i) d[i] = R((int)(i * 7 % 3));
    if (k == 2) for (idx i = 0; i < n; ++i) d[i] = R((int)i);
    if (k == 3) for (idx i = 0; i < n; ++i) d[i] = R(-(int)i);
    if (k == 4) for (idx i = 0; i < n; ++i) d[i] = R(1);
    g.flags(F_INFO);
    g.call([=]() mutable { return tlapack::lasrt(id, n, d); });
}
OPF(lamrg)
{
    BEGIN
    idx n1 = g.dim(), n2 = g.dim();
    int d1 = g.flip() ? 1 : -1, d2 = g.flip() ? 1 : -1;
    auto a = g.vec<R>("a", n1 + n2, C_IN);
    std::vector<R> p(&a.ptr[0], &a.ptr[0] + n1 + n2);
    std::sort(p.begin(), p.begin() + n1);
    std::sort(p.begin() + n1, p.end());
    for (idx i = 0; i < n1; ++i) const_cast<R&>(a[i]) = d1 > 0 ? p[i] : p[n1 - 1 - i];
    for (idx i = 0; i < n2; ++i) const_cast<R&>(a[n1 + i]) = d2 > 0 ? p[n1 + i] : p[n1 + n2 - 1 - i];
    auto index = g.vec<idx>("index", n1 + n2, C_OUT);
    g.flags(F_NOALLOC);
    g.nan(0);
    g.call([=]() mutable { tlapack::lamrg(n1, n2, a, d1, d2, index); });
}
template <class R, class GG, class V> static void secular(GG& g, V& d, V& z, size_t n)
{
    R t(0), nz(0);
    for (size_t i = 0; i < n; ++i) { t += R(0.1) + [](auto x_) { using std::abs; return abs(x_); }(g.template val<R>()); d[i] = t; z[i] = g.template val<R>() + R(1.2); nz += z[i] * z[i]; }
    for (size_t i = 0; i < n; ++i) z[i] /= [](auto x_) { using std::sqrt; return sqrt(x_); }(nz);
}
OPF(laed4)
{
    BEGIN
    idx n = g.dim1(), i = g.r.below(n);
    auto d = g.vec<R>("d", n, C_IN);
    auto z = g.vec<R>("z", n, C_IN);
    secular<R>(g, d, z, n);
    auto delta = g.vec<R>("delta", n, C_OUT);
    auto& dlam = g.cell<R>("dlam", C_OUT);
    R rho = R(0.2) + [](auto x_) { using std::abs; return abs(x_); }(g.val<R>()) * R(3);
    g.flags(F_INFO | F_ITER);
    g.call([=, &dlam]() mutable {
        std::vector<R> w(n);   // the routine needs a container with iterators
        int info = tlapack::laed4(n, i, d, z, w, rho, dlam);
        for (idx j = 0; j < n; ++j) delta[j] = w[j];
        return info;
    });
}
OPF(laed5)
{
    BEGIN
    idx i = g.r.below(2);
    auto d = g.vec<R>("d", 2, C_IN);
    auto z = g.vec<R>("z", 2, C_IN);
    secular<R>(g, d, z, 2);
    auto delta = g.vec<R>("delta", 2, C_OUT);
    auto& dlam = g.cell<R>("dlam", C_OUT);
    R rho = R(0.2) + [](auto x_) { using std::abs; return abs(x_); }(g.val<R>()) * R(3);
    g.flags(F_NOALLOC);
    g.call([=, &dlam]() mutable { tlapack::laed5(i, d, z, delta, rho, dlam); });
}
OPF(laed6)
{
    BEGIN
    auto d = g.vec<R>("d", 3, C_IN);
    auto z = g.vec<R>("z", 3, C_IN);
    secular<R>(g, d, z, 3);
    bool org = g.flip();
    // the origin lies at the pole of the interval
    R sh = org ? d[1] : d[0];
    R mid = org ? (d[1] + d[2]) / 2 : (d[0] + d[1]) / 2;
    (void)sh;
    for (idx i = 0; i < 3; ++i) d[i] -= mid;
    auto& tau = g.cell<R>("tau", C_OUT);
    R rho = R(0.2) + [](auto x_) { using std::abs; return abs(x_); }(g.val<R>());
    R fin = rho + z[0] / d[0] + z[1] / d[1] + z[2] / d[2];
    idx kn = g.dimr(1, 3);
    auto& finit = g.cell<R>("finit", C_IN);
    finit = fin;
    bool* porg = (bool*)g.raw<uint8_t>("orgati", 1, C_IN);
    *porg = org;
    g.flags(F_INFO | F_ITER);
    g.call([=, &tau, &finit]() mutable { return tlapack::laed6(kn, *porg, rho, d, z, finit, tau); });
}
OPF(trevc_2x2solve)
{
    BEGIN
    auto a = g.vec<R>("a", 4, C_IN);
    auto x = g.vec<R>("x", 2, C_INOUT);
    auto& scale = g.cell<R>("scale", C_OUT);
    R mn = tlapack::safe_min<R>(), mx = tlapack::safe_max<R>();
    g.flags(F_NOALLOC);
    g.call([=, &scale]() mutable { tlapack::trevc_2x2solve(a[0], a[1], a[2], a[3], x[0], x[1], scale, mn, mx); });
}
#else
OPF(ladiv)
{
    BEGIN
    auto& a = g.cell<T>("x", C_IN);
    auto& b = g.cell<T>("y", C_IN);
    auto& ret = g.cell<T>("ret", C_OUT);
    R sc[3] = {R(1), std::numeric_limits<R>::max() / 2, std::numeric_limits<R>::min()};
    if (g.flip(0.5)) { a *= sc[g.r.below(3)]; b *= sc[g.r.below(3)]; }
    g.flags(F_NOALLOC);
    g.call([&] { ret = tlapack::ladiv(a, b); });
}
#endif
// Random vectors. Result code: 1 value out of range, 2 seed not advanced, 4 other seed, same stream,
// 8 the updated seed does not continue the stream reproducibly
template <int D, class seed_t, class T, tlapack::Layout L> static void larnv_op(sim::Build* b_, const sim::BuildParams* p_)
{
    BEGIN
    idx n = g.dim();
    seed_t* seed = g.raw<seed_t>("iseed", 1, C_INOUT);
    *seed = g.flip(0.15) ? 0 : (seed_t)(g.r.next() & (g.flip() ? 0xffff : 0x7fffffff));
    auto x = g.svec<T>("x", n, C_OUT);
    auto y = g.vec<T>("y", n, C_OUT);
    g.call([=]() mutable -> int {
        int code = 0;
        seed_t s0 = *seed;
        tlapack::larnv<D>(*seed, x);
        if (*seed == s0) code |= 2;
        seed_t s1 = *seed;
        tlapack::larnv<D>(*seed, y);
        if (*seed == s1) code |= 2;
        for (int w = 0; w < 2; ++w)
            for (idx i = 0; i < n; ++i) {
                T v = w ? y[i] : x[i];
                if constexpr (kit::isC<T>::value) {
                    double a = (double)(v.real()), b = (double)(v.imag());
                    bool ok = a == a && b == b;
                    if (D == 1) ok = ok && a >= 0 && a <= 1 && b >= 0 && b <= 1;
                    if (D == 2) ok = ok && a >= -1 && a <= 1 && b >= -1 && b <= 1;
                    if (D == 4) ok = ok && a * a + b * b <= 1 + 1e-5;
                    if (D == 5) ok = ok && a * a + b * b <= 1 + 1e-5 && a * a + b * b >= 1 - 1e-5;
                    if (!ok) code |= 1;
                }
                else {
                    bool ok = v == v;
                    if (D == 1) ok = ok && v >= 0 && v <= 1;
                    if (D == 2) ok = ok && v >= -1 && v <= 1;
                    if (!ok) code |= 1;
                }
            }
        if (n >= 4) {
            bool same = true;
            for (idx i = 0; i < n; ++i) if (!(x[i] == y[i])) same = false;
            if (same) code |= 4;
        }
        return code;
    });
}
OPF(larnv1) { larnv_op<1, int, T, L>(b_, p_); }
OPF(larnv2) { larnv_op<2, uint64_t, T, L>(b_, p_); }
OPF(larnv3) { larnv_op<3, uint32_t, T, L>(b_, p_); }
#ifdef CCPLX
OPF(larnv4) { larnv_op<4, int, T, L>(b_, p_); }
OPF(larnv5) { larnv_op<5, uint64_t, T, L>(b_, p_); }
#endif

CATALOGUE_BEGIN
REG(lange, A_REJECT) REG(lansy, A_REJECT) REG(lanhe, A_REJECT) REG(lantr, A_REJECT)
REG(infnorm_colmajor, A_WORK) REG(infnorm_symmetric, A_WORK | A_REJECT) REG(infnorm_hermitian, A_WORK | A_REJECT) REG(infnorm_triangular, A_WORK | A_REJECT)
REG(lacpy, A_REJECT) REG(laset, A_REJECT) REG(lascl, A_REJECT) REG(lascl_band, A_REJECT)
REG(hasnan_mat, A_REJECT) REG(hasnan_band, 0) REG(hasnan_vec, 0) REG(hasinf_mat, A_REJECT) REG(hasinf_band, 0) REG(hasinf_vec, 0)
REG(conjugate, 0) REG(transpose, A_REJECT) REG(lassq, 0) REG(rscl, 0) REG(rot_sequence, A_REJECT) REG(rot_sequence3, A_REJECT)
REG(ladiv, 0)
#ifdef CREAL
REG(lae2, 0) REG(laev2, 0) REG(lapy2, 0) REG(lapy3, 0) REG(lasrt, 0) REG(lamrg, 0) REG(laed4, 0) REG(laed5, 0) REG(laed6, 0)
REG(trevc_2x2solve, 0)
#endif
REG(larnv1, A_RNG) REG(larnv2, A_RNG) REG(larnv3, A_RNG)
#ifdef CCPLX
REG(larnv4, A_RNG) REG(larnv5, A_RNG)
#endif
CATALOGUE_END
