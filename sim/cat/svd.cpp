// Bidiagonal reduction, singular values, Tikhonov regularisation.
#include "../opkit.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/gebd2.hpp>
#include <tlapack/lapack/gebrd.hpp>
#include <tlapack/lapack/bidiag.hpp>
#include <tlapack/lapack/ungbr.hpp>
#include <tlapack/lapack/svd_qr.hpp>
#include <tlapack/lapack/gesvd.hpp>
#include <tlapack/lapack/svd22.hpp>
#include <tlapack/lapack/singularvalues22.hpp>
#include <tlapack/lapack/tkhnv.hpp>

OPF(gebd2)
{
    BEGIN
    idx m = g.dim(), n = g.dim(), k = std::min(m, n);
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    if (g.flip(0.15)) g.zerocol(A);
    idx b1 = k && g.bad(1), b2 = k && g.bad(2);
    auto tv = g.vec<T>("tauv", k - b1, C_OUT);
    auto tw = g.vec<T>("tauw", k - b2, C_OUT);
    g.pair_<T, L>(gebd2_worksize<T>(A, tv, tw), [=](auto& W) mutable { return gebd2_work(A, tv, tw, W); }, [=]() mutable { return tlapack::gebd2(A, tv, tw); });
}
OPF(gebrd)
{
    BEGIN
    idx m = g.dim(), n = g.dim(), k = std::min(m, n);
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    if (g.flip(0.15)) g.zerocol(A);
    auto tv = g.vec<T>("tauv", k, C_OUT);
    auto tw = g.vec<T>("tauw", k, C_OUT);
    GebrdOpts o;
    o.nb = g.nb();
    g.pair_<T, L>(gebrd_worksize<T>(A, tv, tw, o), [=](auto& W) mutable { return gebrd_work(A, tv, tw, W, o); }, [=]() mutable { return tlapack::gebrd(A, tv, tw, o); });
}
OPF(bidiag)
{
    BEGIN
    idx m = g.dim(), n = g.dim(), k = std::min(m, n);
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    auto tv = g.vec<T>("tauv", k, C_OUT);
    auto tw = g.vec<T>("tauw", k, C_OUT);
    BidiagOpts o;
    o.nb = g.nb();
    o.variant = g.flip() ? BidiagVariant::Level2 : BidiagVariant::Blocked;
    g.pair_<T, L>(bidiag_worksize<T>(A, tv, tw, o), [=](auto& W) mutable { return bidiag_work(A, tv, tw, W, o); }, [=]() mutable { return tlapack::bidiag(A, tv, tw, o); });
}
OPF(labrd)
{
    BEGIN
    idx m = g.dim1(), n = g.dim1(), k = std::min(m, n), nb = 1 + g.r.below(k);
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    for (idx j = nb; j < n; ++j) for (idx i = nb; i < m; ++i) g.setc(A, i, j, C_IN);
    auto tq = g.vec<T>("tauq", nb, C_OUT);
    auto tp = g.vec<T>("taup", nb, C_OUT);
    auto X = g.mat<T, L>("X", m, nb, C_OUT);
    auto Y = g.mat<T, L>("Y", n, nb, C_OUT);
    // the leading parts of X and Y are scratch space
    for (idx j = 0; j < nb; ++j) for (idx i = 0; i < nb; ++i) { if (i <= j) { g.setc(X, i, j, C_WORK); g.setc(Y, i, j, C_WORK); } }
    // nothing is left to be updated with the last columns
    if (nb == k) { for (idx i = 0; i < m; ++i) g.setc(X, i, nb - 1, C_WORK); for (idx i = 0; i < n; ++i) g.setc(Y, i, nb - 1, C_WORK); }
    g.flags(F_NOALLOC);
    g.call([=]() mutable { return tlapack::labrd(A, tq, tp, X, Y); });
}
template <class T, tlapack::Layout L, class F> static void ungbr_(sim::Build* b_, const sim::BuildParams* p_, bool p, F&& f)
{
    using namespace kit;
    G g(b_, p_);
    // q: A is m-by-n, from an m-by-k matrix.  p: A is m-by-n, from a k-by-n matrix.
    idx a = g.dim(), k = g.dim(), n;
    bool big = p ? k < a : a >= k;
    n = big ? g.dimr(k, a) : a;
    auto A = p ? g.mat<T, L>("A", n, a, C_INOUT) : g.mat<T, L>("A", a, n, C_INOUT);
    for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) {
        idx r = p ? j : i, c = p ? i : j;
        bool refl = big ? (c < k && r > c) : (c + 1 < a && r > c + 1);
        if (!refl) g.setc(A, i, j, C_OUT);
    }
    auto tau = g.vec<T>("tau", std::min(a, k), C_IN);
    if (!big && a) for (idx i = a - 1; i < tau.n; ++i) g.setcv(tau, i, C_NOREF);
    tlapack::UngbrOpts o;
    o.nb = g.nb();
    f(g, k, A, tau, o);
}
OPF(ungbr_q)
{
    ungbr_<T, L>(b_, p_, false, [](kit::G& g, kit::idx k, auto A, auto tau, auto o) {
        g.pair_<T, L>(tlapack::ungbr_q_worksize<T>(k, A, tau, o), [=](auto& W) mutable { return tlapack::ungbr_q_work(k, A, tau, W, o); }, [=]() mutable { return tlapack::ungbr_q(k, A, tau, o); });
    });
}
OPF(ungbr_p)
{
    ungbr_<T, L>(b_, p_, true, [](kit::G& g, kit::idx k, auto A, auto tau, auto o) {
        g.pair_<T, L>(tlapack::ungbr_p_worksize<T>(k, A, tau, o), [=](auto& W) mutable { return tlapack::ungbr_p_work(k, A, tau, W, o); }, [=]() mutable { return tlapack::ungbr_p(k, A, tau, o); });
    });
}
OPF(svd_qr)
{
    BEGIN
    idx n = g.dim();
    Uplo u = g.uplo();
    bool wu = g.flip(), wv = g.flip();
    bool be = g.bad(1), bu = g.bad(2), bv = g.bad(3);
    if (be || bu || bv) n += 2;
    wu |= bu, wv |= bv;
    auto d = g.vec<R>("d", n, C_INOUT);
    auto e = g.vec<R>("e", be ? n - 2 : n ? n - 1 : 0, C_INOUT);
    double q = g.r.unit();
    if (q < 0.15) for (idx i = 0; i < n; ++i) d[i] *= R(1e-6);
    else if (q < 0.3) for (idx i = 0; i < n; ++i) d[i] *= R(std::pow(10., -(double)i));
    else if (q < 0.4) for (idx i = 0; i < n; ++i) d[i] *= R(std::pow(10., -(double)(n - i)));
    else if (q < 0.5) { for (idx i = 0; i < n; ++i) if (g.flip(0.3)) d[i] = R(0); }
    else if (q < 0.6) { for (idx i = 0; i < e.n; ++i) if (g.flip(0.3)) e[i] = R(0); }
    else if (q < 0.65) { for (idx i = 0; i < n; ++i) d[i] = R(1); for (idx i = 0; i < e.n; ++i) e[i] = R(1); }
    idx nu = g.dim(), nv = g.dim();
    auto U = g.mat<T, L>("U", wu ? nu : 0, wu ? n - bu : 0, wu ? C_INOUT : C_NOREF);
    auto V = g.mat<T, L>("Vt", wv ? n - bv : 0, wv ? nv : 0, wv ? C_INOUT : C_NOREF);
    g.flags(F_NOALLOC | F_ITER | F_INFO);
    g.call([=]() mutable { return tlapack::svd_qr(u, wu, wv, d, e, U, V); });
}
OPF(gesvd)
{
    BEGIN
    idx m = g.dim(), n = g.dim(), k = std::min(m, n);
    bool wu = g.flip(), wv = g.flip();
    auto A = g.mat<T, L>("A", m, n, C_SCRATCH);
    if (g.flip(0.2)) g.zerocol(A);
    bool bu = g.bad(2), bu2 = g.bad(3), bv = g.bad(4), bv2 = g.bad(5);
    wu |= bu || bu2, wv |= bv || bv2;
    auto s = g.vec<R>("s", k + g.badd(1), C_OUT);
    auto U = g.mat<T, L>("U", wu ? m + bu : 0, wu ? (bu2 && k ? k - 1 : m) : 0, C_OUT);
    auto V = g.mat<T, L>("Vt", wv ? (bv2 && k ? k - 1 : n) : 0, wv ? n + bv : 0, C_OUT);
    if ((bu2 || bv2) && !k) { if (bu2) U = g.mat<T, L>("U2", m + 1, m, C_OUT); else V = g.mat<T, L>("V2", n, n + 1, C_OUT); }
    g.flags(F_ITER | F_INFO);
    g.call([=]() mutable { return tlapack::gesvd(wu, wv, A, s, U, V); });
}
template <class T, tlapack::Layout L> static void tik_(sim::Build* b_, const sim::BuildParams* p_, TikVariant v)
{
    using namespace kit;
    G g(b_, p_);
    using R = Re<T>;
    bool b1 = g.bad(1);
    idx n = b1 ? g.dim1() : g.dim(), m = n + (g.flip() ? 0 : g.dim()), k = g.dim();
    auto A = g.mat<T, L>("A", b1 ? n - 1 : m, n, C_SCRATCH);
    g.domdiag(A);
    auto b = g.mat<T, L>("b", m + g.badd(2), k, C_INOUT);
    // rows n.. hold no result
    for (idx j = 0; j < k; ++j) for (idx i = n; i < m; ++i) g.setc(b, i, j, C_SCRATCH);
    R lambda = R(0.1 + g.r.unit());
    g.flags(F_ITER);
    g.call([=]() mutable { TikOpts o(v); tkhnv(A, b, lambda, o); });
}
OPF(tik_qr_) { tik_<T, L>(b_, p_, TikVariant::QR); }
OPF(tik_elden_) { tik_<T, L>(b_, p_, TikVariant::Elden); }
OPF(tik_svd_) { tik_<T, L>(b_, p_, TikVariant::SVD); }
#ifdef CREAL
OPF(svd22)
{
    BEGIN
    R f = g.scalar<R>(), gg = g.scalar<R>(), h = g.scalar<R>();
    auto x = g.vec<R>("in", 3, C_IN);
    x[0] = f; x[1] = gg; x[2] = h;
    auto o = g.vec<R>("out", 6, C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=]() mutable { tlapack::svd22(x[0], x[1], x[2], o[0], o[1], o[2], o[3], o[4], o[5]); });
}
OPF(singularvalues22)
{
    BEGIN
    R f = g.scalar<R>(), gg = g.scalar<R>(), h = g.scalar<R>();
    auto x = g.vec<R>("in", 3, C_IN);
    x[0] = f; x[1] = gg; x[2] = h;
    auto o = g.vec<R>("out", 2, C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=]() mutable { tlapack::singularvalues22(x[0], x[1], x[2], o[0], o[1]); });
}
#endif
using namespace sim;
CATALOGUE_BEGIN
REG(gebd2, A_WORK) REG(gebrd, A_WORK) REG(bidiag, A_WORK) REG(labrd, 0)
REG(ungbr_q, A_WORK) REG(ungbr_p, A_WORK)
REG(svd_qr, A_HEAVY) REG(gesvd, A_HEAVY)
{"tik_qr." CSUF, tik_qr_<CT, tlapack::Layout::CL>, sim::A_CPP},
#ifndef NOTIK
{"tik_elden." CSUF, tik_elden_<CT, tlapack::Layout::CL>, sim::A_CPP | sim::A_HEAVY},
{"tik_svd." CSUF, tik_svd_<CT, tlapack::Layout::CL>, sim::A_CPP | sim::A_HEAVY},
#endif
#ifdef CREAL
REG(svd22, 0) REG(singularvalues22, 0)
#endif
CATALOGUE_END
