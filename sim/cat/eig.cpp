// Hessenberg and tridiagonal reductions, QR iterations, Schur form tools.
#include "../opkit.hpp"
#include <functional>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/gehd2.hpp>
#include <tlapack/lapack/gehrd.hpp>
#include <tlapack/lapack/hessenberg.hpp>
#include <tlapack/lapack/unghr.hpp>
#include <tlapack/lapack/unmhr.hpp>
#include <tlapack/lapack/hetd2.hpp>
#include <tlapack/lapack/ungtr.hpp>
#include <tlapack/lapack/qr_iteration.hpp>
#include <tlapack/lapack/schur_move.hpp>
#include <tlapack/lapack/hessenberg_rq.hpp>
#include <tlapack/lapack/steqr.hpp>
#include <tlapack/lapack/trevc.hpp>
#include <tlapack/lapack/inv_house3.hpp>

namespace kit {
// upper Hessenberg in rows and columns lo..hi, upper triangular outside
template <class T, Layout L> KMat<T, L> hessA(G& g, idx n, idx lo, idx hi, int below)
{
    auto A = g.mat<T, L>("A", n, n, C_INOUT);
    for (idx j = 0; j < n; ++j) {
        for (idx i = j + 2; i < n; ++i) { A(i, j) = T(0); if (below != C_INOUT) g.setc(A, i, j, below); }
        if (j + 1 < n) {
            if (j < lo || j + 1 >= hi) A(j + 1, j) = T(0);
            else if (g.flip(0.06)) A(j + 1, j) = T(0);
        }
    }
    if (g.flip(0.15)) for (idx j = 0; j < n; ++j) for (idx i = 0; i < j; ++i) A(i, j) *= Re<T>(1e-4);
    if (g.flip(0.15)) for (idx j = 0; j < n; ++j) if (g.flip()) A(j, j) = T(0);
    if (n > 2 && g.flip(0.06)) {
        // a cyclic shift: the iterations make no progress without exceptional shifts
        for (idx j = 0; j < n; ++j) for (idx i = 0; i <= std::min(j + 1, n - 1); ++i) A(i, j) = T(i == j + 1 && j >= lo && j + 1 < hi ? 1 : 0);
        A(lo, hi - 1) = T(1);
    }
    else if (n > 2 && g.flip(0.06)) for (idx j = 0; j + 1 < n; ++j) A(j + 1, j) *= Re<T>(g.flip() ? 1e-7 : std::numeric_limits<Re<T>>::min() * 4);
    return A;
}
// nearly or exactly equal neighbouring eigenvalues
template <class T, Layout L> void close(G& g, KMat<T, L>& A)
{
    double d = g.pick({0., 1e-16, 1e-8, 1e-3});
    for (idx j = 0; j < A.n; ++j) {
        A(j, j) = T(Re<T>(1 + d * (j % 3)));
        if (j + 1 < A.n && A(j + 1, j) != T(0)) {
            A(j + 1, j + 1) = A(j, j);
            A(j + 1, j) = T(Re<T>(-0.5));
            A(j, j + 1) = T(Re<T>(0.5 + d * (j % 2)));
            ++j;
        }
    }
    if (g.flip(0.3)) for (idx j = 0; j < A.n; ++j) for (idx i = 0; i + 1 < j; ++i) A(i, j) *= Re<T>(g.flip() ? 1e6 : 0);
}
// growth: small diagonal, huge entries above it
template <class T, Layout L> void wild(G& g, KMat<T, L>& A)
{
    int big = sizeof(Re<T>) == 4 ? 100 : 900;
    int lo = (int)g.r.below(big), hi = (int)g.r.below(big + big / 4);
    for (idx j = 0; j < A.n; ++j) {
        bool blk = j + 1 < A.n && A(j + 1, j) != T(0);
        if (g.flip(0.5)) A(j, j) *= Re<T>(std::ldexp(1.0, -lo));
        if (blk) A(j + 1, j + 1) = A(j, j);
        for (idx i = 0; i < j; ++i)
            if (!(i + 1 == j && A(j, i) != T(0)) && g.flip(0.7)) A(i, j) *= Re<T>(std::ldexp(1.0, hi));
        if (blk) {
            for (idx i = 0; i < j; ++i) if (g.flip(0.7)) A(i, j + 1) *= Re<T>(std::ldexp(1.0, hi));
            int e = (int)g.r.below(lo + 1);
            if (g.flip()) e = -e;
            A(j, j + 1) *= Re<T>(std::ldexp(1.0, e));
            A(j + 1, j) *= Re<T>(std::ldexp(1.0, g.flip() ? -e : e / 2));
            ++j;
        }
    }
}
// Schur form; a2: positions of 2x2 blocks
template <class T, Layout L> KMat<T, L> schurA(G& g, idx n, int cls, const char* name = "A", idx* firstpair = nullptr)
{
    auto A = g.mat<T, L>(name, n, n, cls);
    for (idx j = 0; j < n; ++j) {
        for (idx i = j + 2; i < n; ++i) A(i, j) = T(0);
        A(j, j) += T(Re<T>(0.7 * (j % 7)));
        if (j + 1 < n) { A(j + 1, j) = T(0); if (isC<T>::value) g.setc(A, j + 1, j, cls); }
    }
    if constexpr (!isC<T>::value)
        for (idx j = 0; j + 1 < n; ++j)
            if (g.flip(0.35)) {
                A(j + 1, j) = T(-0.3 - g.r.unit());
                A(j, j + 1) = T(0.2 + g.r.unit());
                A(j + 1, j + 1) = A(j, j);
                ++j;
            }
    if (n > 1 && g.flip(0.15)) close(g, A);
    else if (n > 1 && g.flip(0.2)) wild(g, A);
    (void)firstpair;
    return A;
}
struct HR { idx n, lo, hi; };
inline HR hrange(G& g)
{
    HR h;
    h.n = g.dim1();
    h.lo = 0, h.hi = h.n;
    if (g.flip(0.4)) { h.lo = g.r.below(h.n); h.hi = h.lo + 1 + g.r.below(h.n - h.lo); }
    return h;
}
template <class O> void francis(G& g, O& o, bool big = false)
{
    size_t ns = 2 + 2 * g.r.below(3), nw = big ? 12 + g.r.below(3) : 2 + g.r.below(5);
    o.nshift_recommender = [ns](size_t, size_t) -> size_t { return ns; };
    o.deflation_window_recommender = [nw](size_t, size_t) -> size_t { return nw; };
    o.nmin = g.pick<size_t>({12, 13, 15, 75});
    o.nibble = g.pick<size_t>({14, 14, 50, 0});
}
}
template <class T, tlapack::Layout L, class F> static void hess_red(sim::Build* b_, const sim::BuildParams* p_, bool chk, F&& f)
{
    using namespace kit;
    G g(b_, p_);
    HR h = hrange(g);
    bool odd = chk && g.bad(1);
    auto A = g.mat<T, L>("A", h.n + odd, h.n, C_INOUT);
    if (!odd) for (idx j = 0; j < h.n; ++j) for (idx i = j + 1; i < h.n; ++i) {
        bool red = j >= h.lo && j + 1 < h.hi && i < h.hi;
        if (!red) g.setc(A, i, j, C_NOREF);
    }
    bool shortt = chk && h.n > 2 && g.bad(2);
    auto tau = g.vec<T>("tau", shortt ? h.n - 2 : (h.n ? h.n - 1 : 0), C_OUT);
    for (idx i = 0; i < tau.n; ++i) if (i < h.lo || i + 1 >= h.hi) g.setcv(tau, i, C_NOREF);
    f(g, h, A, tau);
}
OPF(gehd2)
{
    hess_red<T, L>(b_, p_, true, [](kit::G& g, kit::HR h, auto A, auto tau) {
        g.pair_<T, L>(tlapack::gehd2_worksize<T>(h.lo, h.hi, A, tau), [=](auto& W) mutable { return tlapack::gehd2_work(h.lo, h.hi, A, tau, W); }, [=]() mutable { return tlapack::gehd2(h.lo, h.hi, A, tau); });
    });
}
OPF(gehrd)
{
    hess_red<T, L>(b_, p_, true, [](kit::G& g, kit::HR h, auto A, auto tau) {
        tlapack::GehrdOpts o;
        o.nb = g.nb();
        o.nx_switch = g.pick<size_t>({1, 2, 3, 5, 128});
        auto ws = tlapack::gehrd_worksize<T>(h.lo, h.hi, A, tau, o);
        if (g.bad(3)) h.lo = h.n;
        if (g.bad(4)) h.hi = h.n + 1;
        g.pair_<T, L>(ws, [=](auto& W) mutable { return tlapack::gehrd_work(h.lo, h.hi, A, tau, W, o); }, [=]() mutable { return tlapack::gehrd(h.lo, h.hi, A, tau, o); });
    });
}
OPF(hessenberg)
{
    hess_red<T, L>(b_, p_, true, [](kit::G& g, kit::HR h, auto A, auto tau) {
        tlapack::HessenbergOpts o;
        o.nb = g.nb();
        o.nx_switch = g.pick<size_t>({1, 2, 3, 5, 128});
        o.variant = g.flip() ? tlapack::HessenbergVariant::Level2 : tlapack::HessenbergVariant::Blocked;
        g.pair_<T, L>(tlapack::hessenberg_worksize<T>(h.lo, h.hi, A, tau, o), [=](auto& W) mutable { return tlapack::hessenberg_work(h.lo, h.hi, A, tau, W, o); }, [=]() mutable { return tlapack::hessenberg(h.lo, h.hi, A, tau, o); });
    });
}
OPF(lahr2)
{
    BEGIN
    idx n = 2 + g.dim(), k = g.r.below(n - 1), nb = 1 + g.r.below(n - 1 - k);
    auto A = g.mat<T, L>("A", n, n - k, C_INOUT);
    for (idx i = 0; i <= k; ++i) g.setc(A, i, 0, C_NOREF);
    auto tau = g.vec<T>("tau", nb, C_OUT);
    auto Tm = g.mat<T, L>("T", nb, nb, C_OUT);
    g.tri(Tm, Uplo::Upper, C_WORK);
    auto Y = g.mat<T, L>("Y", n, nb, C_OUT);
    g.flags(F_NOALLOC);
    g.call([=]() mutable { return tlapack::lahr2(k, nb, A, tau, Tm, Y); });
}
OPF(unghr)
{
    BEGIN
    HR h = hrange(g);
    idx m = h.n;
    auto A = g.mat<T, L>("A", m, m, C_INOUT);
    for (idx j = 0; j < m; ++j) for (idx i = 0; i < m; ++i) {
        bool refl = i > j + 1 && j >= h.lo && j + 1 < h.hi && i < h.hi;
        if (!refl) g.setc(A, i, j, C_OUT);
    }
    auto tau = g.vec<T>("tau", m - 1, C_IN);
    for (idx i = 0; i < tau.n; ++i) if (i < h.lo || i + 1 >= h.hi) g.setcv(tau, i, C_NOREF);
    g.pair_<T, L>(tlapack::unghr_worksize<T>(h.lo, h.hi, A, tau), [=](auto& W) mutable { return tlapack::unghr_work(h.lo, h.hi, A, tau, W); }, [=]() mutable { return tlapack::unghr(h.lo, h.hi, A, tau); });
}
OPF(unmhr)
{
    BEGIN
    Side s = g.side();
    Op t = g.flip() ? Op::NoTrans : (CX ? Op::ConjTrans : Op::Trans);
    HR h;
    do h = hrange(g), h.n += 2, h.hi += g.r.below(3); while (h.hi < h.lo + 2);
    idx k = g.dim1();
    auto A = g.mat<T, L>("A", h.n, h.n, C_IN);
    for (idx j = 0; j < h.n; ++j) for (idx i = 0; i < h.n; ++i)
        if (!(i > j + 1 && j >= h.lo && j + 1 < h.hi && i < h.hi)) g.setc(A, i, j, C_NOREF);
    auto tau = g.vec<T>("tau", h.n - 1, C_IN);
    for (idx i = 0; i < tau.n; ++i) if (i < h.lo || i + 1 >= h.hi) g.setcv(tau, i, C_NOREF);
    auto C = s == Side::Left ? g.mat<T, L>("C", h.n, k, C_INOUT) : g.mat<T, L>("C", k, h.n, C_INOUT);
    g.pair_<T, L>(tlapack::unmhr_worksize<T>(s, t, h.lo, h.hi, A, tau, C), [=](auto& W) mutable { return tlapack::unmhr_work(s, t, h.lo, h.hi, A, tau, C, W); }, [=]() mutable { return tlapack::unmhr(s, t, h.lo, h.hi, A, tau, C); });
}
OPF(hetd2)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim1();
    auto A = g.mat<T, L>("A", n + g.badd(2), n, C_INOUT);
    if (A.m == A.n) { g.tri(A, u); g.imagdiag(A, C_OUT); }
    auto tau = g.vec<T>("tau", (n > 1 && g.bad(3)) ? n - 2 : n - 1, C_OUT);
    u = g.bup(1, u);
    g.call([=]() mutable { return tlapack::hetd2(u, A, tau); });
}
OPF(ungtr)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim1();
    auto Q = g.mat<T, L>("Q", n + g.badd(2), n, C_INOUT);
    for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) {
        bool refl = u == Uplo::Upper ? i + 1 < j : i > j + 1;
        if (!refl) g.setc(Q, i, j, C_OUT);
    }
    auto tau = g.vec<T>("tau", n - 1 + g.badd(1), C_IN);
    u = g.bup(3, u);
    g.call([=]() mutable { return tlapack::ungtr(u, Q, tau); });
}
template <class T, tlapack::Layout L, class F> static void qrit(sim::Build* b_, const sim::BuildParams* p_, int grow, F&& f)
{
    using namespace kit;
    G g(b_, p_);
    if (grow) g.size += grow, g.flags(F_NESTED);
    HR h = hrange(g);
    bool big = grow && g.size > 20 && g.flip(0.12);
    if (big) { h.n = 39 + g.r.below(12); h.lo = g.r.below(2); h.hi = h.n - g.r.below(2); }
    bool wt = g.flip(), wz = g.flip();
    auto A = hessA<T, L>(g, h.n, h.lo, h.hi, C_INOUT);
    auto w = g.vec<std::complex<Re<T>>>("w", h.n + g.badd(1), C_OUT);
    for (idx i = 0; i < w.n; ++i) if (i < h.lo || i >= h.hi) g.setcv(w, i, C_NOREF);
    auto Z = g.mat<T, L>("Z", h.n + (wz && g.bad(2)), h.n, wz ? C_INOUT : C_NOREF);
    if (!wz) g.clsall(Z, C_NOREF);
    if (!wz && g.variant == 102) g.bad(1);
    g.flags(F_INFO | F_ITER);
    f(g, h, wt, wz, A, w, Z);
}
OPF(lahqr)
{
    qrit<T, L>(b_, p_, 0, [](kit::G& g, kit::HR h, bool wt, bool wz, auto A, auto w, auto Z) {
        g.flags(sim::F_NOALLOC);
        g.call([=]() mutable { return tlapack::lahqr(wt, wz, h.lo, h.hi, A, w, Z); });
    });
}
OPF(multishift_qr)
{
    qrit<T, L>(b_, p_, 8, [](kit::G& g, kit::HR h, bool wt, bool wz, auto A, auto w, auto Z) {
        tlapack::FrancisOpts o;
        kit::francis(g, o, h.n >= 39 && g.flip(0.7));
        g.pair_<T, L>(tlapack::multishift_qr_worksize<T>(wt, wz, h.lo, h.hi, A, w, Z, o), [=](auto& W) mutable { return tlapack::multishift_qr_work(wt, wz, h.lo, h.hi, A, w, Z, W, o); }, [=]() mutable { return tlapack::multishift_qr(wt, wz, h.lo, h.hi, A, w, Z, o); });
    });
}
OPF(qr_iteration)
{
    qrit<T, L>(b_, p_, 4, [](kit::G& g, kit::HR h, bool wt, bool wz, auto A, auto w, auto Z) {
        tlapack::QRIterationOpts o;
        kit::francis(g, o, h.n >= 39 && g.flip(0.7));
        o.variant = g.flip() ? tlapack::QRIterationVariant::DoubleShift : tlapack::QRIterationVariant::MultiShift;
        g.pair_<T, L>(tlapack::qr_iteration_worksize<T>(wt, wz, h.lo, h.hi, A, w, Z, o), [=](auto& W) mutable { return tlapack::qr_iteration_work(wt, wz, h.lo, h.hi, A, w, Z, W, o); }, [=]() mutable { return tlapack::qr_iteration(wt, wz, h.lo, h.hi, A, w, Z, o); });
    });
}
OPF(multishift_QR_sweep)
{
    BEGIN
    idx n = 12 + g.dim();
    if (g.bad(1)) n = 11;
    idx lo = 0, hi = n;
    if (g.flip(0.4)) { lo = g.r.below(3); hi = n - g.r.below(3); }
    bool wt = g.flip(), wz = g.flip();
    auto A = hessA<T, L>(g, n, lo, hi, C_INOUT);
    idx ns = g.pick<idx>({2, 4, 6});
    auto s = g.vec<std::complex<R>>("s", ns, C_IN);
    for (idx i = 0; i + 1 < ns; i += 2) {
        if (CX) continue;
        if (g.flip()) s[i + 1] = std::conj(s[i]);
        else { s[i] = std::real(s[i]); s[i + 1] = std::real(s[i + 1]); }
    }
    auto Z = g.mat<T, L>("Z", n, n, wz ? C_INOUT : C_NOREF);
    if (!wz) g.clsall(Z, C_NOREF);
    g.pair_<T, L>(tlapack::multishift_QR_sweep_worksize<T>(wt, wz, lo, hi, A, s, Z), [=](auto& W) mutable { tlapack::multishift_QR_sweep_work(wt, wz, lo, hi, A, s, Z, W); }, [=]() mutable { tlapack::multishift_QR_sweep(wt, wz, lo, hi, A, s, Z); });
}
OPF(aggressive_early_deflation)
{
    BEGIN
    idx n = 12 + g.dim();
    idx lo = 0, hi = n;
    if (g.flip(0.4)) { lo = g.r.below(3); hi = n - g.r.below(3); }
    idx nw = 1 + g.r.below(8);
    bool wt = g.flip(), wz = g.flip();
    auto A = g.bad(4) ? g.mat<T, L>("A", n + 1, n, C_INOUT) : hessA<T, L>(g, n, lo, hi, C_INOUT);
    auto s = g.vec<std::complex<R>>("s", n + g.badd(1), C_OUT);
    idx jw = std::min(std::min(nw, hi - lo), (n - 3) / 3), kw = hi - jw;
    for (idx i = 0; i < s.n; ++i) if (i < kw || i >= hi) g.setcv(s, i, C_NOREF);
    auto Z = g.mat<T, L>("Z", n + (wz ? g.badd(2) : 0), n + (wz ? g.badd(3) : 0), wz ? C_INOUT : C_NOREF);
    if (!wz) g.clsall(Z, C_NOREF);
    idx& ns = g.cell<idx>("ns", C_OUT);
    idx& nd = g.cell<idx>("nd", C_OUT);
    FrancisOpts o;
    francis(g, o);
    g.flags(F_ITER | F_NESTED);
    g.pair_<T, L>(tlapack::aggressive_early_deflation_worksize<T>(wt, wz, lo, hi, nw, A, s, Z, ns, nd, o), [=, &ns, &nd](auto& W) mutable { tlapack::aggressive_early_deflation_work(wt, wz, lo, hi, nw, A, s, Z, ns, nd, W, o); }, [=, &ns, &nd]() mutable { tlapack::aggressive_early_deflation(wt, wz, lo, hi, nw, A, s, Z, ns, nd, o); });
}
OPF(schur_move)
{
    BEGIN
    idx n = g.dim1();
    bool wq = g.flip();
    auto A = schurA<T, L>(g, n, C_INOUT);
    auto Q = g.mat<T, L>("Q", n, n, wq ? C_INOUT : C_NOREF);
    if (!wq) g.clsall(Q, C_NOREF);
    idx& f = g.cell<idx>("ifst", C_INOUT);
    idx& l = g.cell<idx>("ilst", C_INOUT);
    f = g.r.below(n), l = g.r.below(n);
    g.flags(F_INFO | F_NOALLOC);
    g.call([=, &f, &l]() mutable { return tlapack::schur_move(wq, A, Q, f, l); });
}
OPF(schur_swap)
{
    BEGIN
    idx n = 2 + g.dim();
    bool wq = g.flip();
    idx n1 = 1, n2 = 1;
    if (!CX && n >= 4) { n1 = 1 + g.r.below(2); n2 = 1 + g.r.below(2); }
    idx j0 = g.r.below(n - n1 - n2 + 1);
    auto A = g.mat<T, L>("A", n + g.badd(1), n, C_INOUT);
    for (idx j = 0; j < n; ++j) {
        if (A.m == n) for (idx i = j + 1; i < n; ++i) g.setc(A, i, j, C_NOREF);
        A(j, j) += T(R(j % 5));
    }
    if (A.m == n) {
        for (idx j = j0; j < j0 + n1 + n2; ++j) for (idx i = j + 1; i < j0 + n1 + n2; ++i) { A(i, j) = T(0); g.setc(A, i, j, C_INOUT); }
        if (n1 == 2) { A(j0 + 1, j0) = T(R(-0.5)); A(j0, j0 + 1) = T(R(0.25 + g.r.unit())); A(j0 + 1, j0 + 1) = A(j0, j0); }
        idx k = j0 + n1;
        if (n2 == 2) { A(k + 1, k) = T(R(-0.75)); A(k, k + 1) = T(R(0.25 + g.r.unit())); A(k + 1, k + 1) = A(k, k); }
        if (g.flip(0.25)) close(g, A);
    }
    auto Q = g.mat<T, L>("Q", n + g.badd(2), n, wq ? C_INOUT : C_NOREF);
    if (!wq) g.clsall(Q, C_NOREF);
    if (g.bad(3)) n1 = 3;
    if (g.bad(4)) n2 = 0;
    if (g.bad(5)) j0 = n;
    g.flags(F_INFO | F_NOALLOC);
    g.call([=]() mutable { return tlapack::schur_swap(wq, A, Q, j0, n1, n2); });
}
OPF(hessenberg_rq)
{
    BEGIN
    idx n = g.dim();
    auto A = g.mat<T, L>("T", n, n, C_INOUT);
    for (idx j = 0; j < n; ++j) for (idx i = j + 2; i < n; ++i) g.setc(A, i, j, C_NOREF);
    for (idx j = 0; j + 1 < n; ++j) A(j + 1, j) = T(0);
    idx k = n ? n - 1 : 0;
    auto cl = g.vec<R>("cl", k, C_IN);
    auto sl = g.vec<T>("sl", k, C_IN);
    auto cr = g.vec<R>("cr", k, C_OUT);
    auto sr = g.vec<T>("sr", k, C_OUT);
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::hessenberg_rq(A, cl, sl, cr, sr); });
}
OPF(steqr)
{
    BEGIN
    idx n = g.dim();
    bool wz = g.flip();
    bool be = g.bad(1), bz = g.bad(2);
    if (be || bz) n += 2;
    if (bz) wz = true;
    auto d = g.svec<R>("d", n, C_INOUT);
    auto e = g.svec<R>("e", be ? n - 2 : n ? n - 1 : 0, C_INOUT);
    if (n > 2 && g.flip(0.2)) e[g.r.below(n - 2)] = R(0);
    if (g.flip(0.1)) for (idx i = 0; i < n; ++i) d[i] = R(1);
    auto Z = g.mat<T, L>("Z", n, n - bz, wz ? C_INOUT : C_NOREF);
    if (!wz) g.clsall(Z, C_NOREF);
    g.flags(F_INFO | F_ITER);
    g.call([=]() mutable { return tlapack::steqr(wz, d, e, Z); });
}
OPF(trevc)
{
    BEGIN
    idx n = g.dim1();
    Side s = g.pick({Side::Left, Side::Right, Side::Both});
    HowMny hm = g.pick({HowMny::All, HowMny::Back, HowMny::Select});
    auto A = schurA<T, L>(g, n, C_IN, "T");
    auto sel = g.vec<int>("select", n, hm == HowMny::Select ? C_INOUT : C_NOREF);
    idx m = n;
    if (hm == HowMny::Select) {
        m = 0;
        for (idx j = 0; j < n; ++j) {
            sel[j] = g.flip();
            if (j + 1 < n && A(j + 1, j) != T(0)) { sel[j + 1] = g.flip(); if (sel[j] || sel[j + 1]) m += 2; ++j; }
            else m += sel[j];
        }
    } 
    bool sh = m && g.bad(1);
    int c = hm == HowMny::Back ? C_INOUT : C_OUT;
    auto Vl = g.mat<T, L>("Vl", n, m - sh, s == Side::Right ? C_NOREF : c);
    auto Vr = g.mat<T, L>("Vr", n, m - sh, s == Side::Left ? C_NOREF : c);
    if (s == Side::Right) g.clsall(Vl, C_NOREF);
    if (s == Side::Left) g.clsall(Vr, C_NOREF);
    auto rw = g.vec<R>("rwork", n, C_WORK);
    auto w = g.vec<T>("work", 3 * n, C_WORK);
    g.nan(0);
    g.flags(F_NOALLOC | F_ENTRY);
    g.call([=]() mutable { return tlapack::trevc(s, hm, sel, A, Vl, Vr, rw, w); });
}
OPF(lahqr_shiftcolumn)
{
    BEGIN
    idx n = 2 + g.r.below(2);
    auto H = g.mat<T, L>("H", n + g.badd(1), n, C_IN);
    if (g.flip(0.2)) H(1, 0) = T(0);
    if (n == 3 && H.m == 3) H(2, 0) = T(0);
    auto v = g.vec<T>("v", n + g.badd(2), C_OUT);
    auto s1 = g.val<std::complex<R>>(), s2 = std::conj(s1);
    if (g.flip(0.1)) { s1 = s2 = std::complex<R>(R(0.5)); H(1, 0) = T(0); H(0, 0) = T(R(0.5)); }
    g.flags(F_NOALLOC);
    g.call([=]() mutable { return tlapack::lahqr_shiftcolumn(H, v, s1, s2); });
}
OPF(move_bulge)
{
    BEGIN
    auto H = g.mat<T, L>("H", 4, 3, C_INOUT);
    auto v = g.vec<T>("v", 3, C_INOUT);
    auto s1 = g.val<std::complex<R>>(), s2 = std::conj(s1);
    g.setc(H, 3, 0, C_OUT);
    g.setc(H, 3, 1, C_OUT);
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::move_bulge(H, v, s1, s2); });
}
OPF(lahqr_eig22)
{
    BEGIN
    auto A = g.mat<T, L>("A", 2, 2, C_IN);
    if (g.flip(0.2)) g.zerocol(A);
    if (g.flip(0.1)) g.scaleall(A, 0);
    auto& s1 = g.cell<std::complex<R>>("s1", C_OUT);
    auto& s2 = g.cell<std::complex<R>>("s2", C_OUT);
    g.flags(F_NOALLOC);
    g.call([=, &s1, &s2]() mutable { tlapack::lahqr_eig22(A(0, 0), A(0, 1), A(1, 0), A(1, 1), s1, s2); });
}
#ifdef CREAL
OPF(lahqr_schur22)
{
    BEGIN
    auto A = g.mat<T, L>("A", 2, 2, C_INOUT);
    if (g.flip(0.2)) g.zerocol(A);
    if (g.flip(0.3)) A(g.r.below(2), g.r.below(2)) = T(0);
    if (g.flip(0.3)) A(1, 1) = A(0, 0);
    if (g.flip(0.2)) A(1, 0) = g.flip() ? A(0, 1) : -A(0, 1);
    auto& s1 = g.cell<std::complex<R>>("s1", C_OUT);
    auto& s2 = g.cell<std::complex<R>>("s2", C_OUT);
    auto& cs = g.cell<T>("cs", C_OUT);
    auto& sn = g.cell<T>("sn", C_OUT);
    g.flags(F_NOALLOC | F_ITER);
    g.call([=, &s1, &s2, &cs, &sn]() mutable { tlapack::lahqr_schur22(A(0, 0), A(0, 1), A(1, 0), A(1, 1), s1, s2, cs, sn); });
}
OPF(lasy2)
{
    BEGIN
    idx n1 = 1 + g.r.below(2), n2 = n1;
    Op tl = g.flip() ? Op::NoTrans : Op::Trans, tr = g.flip() ? Op::NoTrans : Op::Trans;
    int sg = g.flip() ? 1 : -1;
    auto TL = g.mat<T, L>("TL", n1, n1, C_IN);
    auto TR = g.mat<T, L>("TR", n2, n2, C_IN);
    auto B = g.mat<T, L>("B", n1, n2, C_IN);
    auto X = g.mat<T, L>("X", n1, n2, C_OUT);
    T& sc = g.cell<T>("scale", C_OUT);
    T& xn = g.cell<T>("xnorm", C_OUT);
    if (g.flip(0.15)) { g.scaleall(TL, 0); if (g.flip()) g.scaleall(TR, g.flip() ? 0 : 1e-300); }
    else if (g.flip(0.15)) { for (idx j = 0; j < n1; ++j) for (idx i = 0; i < n1; ++i) TR(i, j) = T(-sg) * (tl == tr ? TL(i, j) : TL(j, i)); }
    else if (g.flip(0.15)) { double q = sizeof(R) == 4 ? 1e-19 : 1e-154; g.scaleall(TL, q); g.scaleall(TR, q); g.scaleall(B, 1 / q); }
    if (g.bad(1)) sg = 0;
    g.flags(F_INFO | F_NOALLOC);
    g.call([=, &sc, &xn]() mutable { return tlapack::lasy2(tl, tr, sg, TL, TR, B, sc, X, xn); });
}
#endif

using namespace sim;
CATALOGUE_BEGIN
REG(gehd2, A_WORK | A_REJECT) REG(gehrd, A_WORK | A_REJECT) REG(hessenberg, A_WORK | A_REJECT) REG(lahr2, 0) REG(unghr, A_WORK) REG(unmhr, A_WORK)
REG(hetd2, A_REJECT) REG(ungtr, 0) REG(lahqr, A_REJECT) REG(multishift_qr, A_WORK | A_HEAVY) REG(qr_iteration, A_WORK | A_HEAVY)
REG(multishift_QR_sweep, A_WORK | A_REJECT | A_HEAVY) REG(aggressive_early_deflation, A_WORK | A_REJECT | A_HEAVY) REG(schur_move, 0) REG(schur_swap, A_REJECT)
REG(hessenberg_rq, 0) REG(steqr, 0) REG(trevc, A_REJECT) REG(lahqr_shiftcolumn, A_REJECT) REG(move_bulge, 0) REG(lahqr_eig22, 0)
#ifdef CREAL
REG(lahqr_schur22, 0) REG(lasy2, A_REJECT)
#endif
CATALOGUE_END
