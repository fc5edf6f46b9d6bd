// Generalized eigenvalue problems: reduction, QZ iterations, generalized Schur tools.
#include "../opkit.hpp"
#include <functional>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/gghd3.hpp>
#include <tlapack/lapack/lahqz.hpp>
#include <tlapack/lapack/multishift_qz.hpp>
#include <tlapack/lapack/generalized_schur_move.hpp>
#include <tlapack/lapack/generalized_schur_swap.hpp>
#include <tlapack/lapack/lahqz_eig22.hpp>
#include <tlapack/lapack/lahqz_schur22.hpp>
#include <tlapack/lapack/lahqz_shiftcolumn.hpp>

namespace kit {
struct HR { idx n, lo, hi; };
inline HR hrange(G& g)
{
    HR h;
    h.n = g.dim1();
    h.lo = 0, h.hi = h.n;
    if (g.flip(0.4)) { h.lo = g.r.below(h.n); h.hi = h.lo + 1 + g.r.below(h.n - h.lo); }
    return h;
}
template <class T, Layout L> KMat<T, L> hessA(G& g, idx n, idx lo, idx hi)
{
    auto A = g.mat<T, L>("A", n, n, C_INOUT);
    for (idx j = 0; j < n; ++j) {
        for (idx i = j + 2; i < n; ++i) A(i, j) = T(0);
        if (j + 1 < n && (j < lo || j + 1 >= hi || g.flip(0.06))) A(j + 1, j) = T(0);
    }
    if (g.flip(0.15)) for (idx j = 0; j < n; ++j) if (g.flip()) A(j, j) = T(0);
    if (n > 2 && g.flip(0.06)) {
        for (idx j = 0; j < n; ++j) for (idx i = 0; i <= std::min(j + 1, n - 1); ++i) A(i, j) = T(i == j + 1 && j >= lo && j + 1 < hi ? 1 : 0);
        A(lo, hi - 1) = T(1);
    }
    else if (n > 2 && g.flip(0.06)) for (idx j = 0; j + 1 < n; ++j) A(j + 1, j) *= Re<T>(g.flip() ? 1e-7 : std::numeric_limits<Re<T>>::min() * 4);
    return A;
}
template <class T, Layout L> KMat<T, L> upB(G& g, idx m, idx n)
{
    auto B = g.mat<T, L>("B", m, n, C_INOUT);
    for (idx j = 0; j < n; ++j) {
        for (idx i = j + 1; i < m; ++i) B(i, j) = T(0);
        if (j < m) B(j, j) += T(Re<T>(2));
    }
    if (m == n && n && g.flip(0.15)) { idx j = g.r.below(n); B(j, j) = T(0); }
    if (m == n && n && g.flip(0.08)) for (idx j = 0; j < n; ++j) if (g.flip(0.4)) B(j, j) = g.flip() ? T(0) : B(j, j) * Re<T>(1e-9);
    return B;
}
template <class O> void francis(G& g, O& o, bool big = false)
{
    size_t ns = 2 + 2 * g.r.below(3), nw = big ? 12 + g.r.below(3) : 2 + g.r.below(5);
    o.nshift_recommender = [ns](size_t, size_t) -> size_t { return ns; };
    o.deflation_window_recommender = [nw](size_t, size_t) -> size_t { return nw; };
    o.nmin = g.pick<size_t>({12, 13, 15, 75});
    o.nibble = g.pick<size_t>({14, 14, 50, 0});
}
template <class T, Layout L> KMat<T, L> opt(G& g, const char* nm, idx n, bool want, idx extra = 0, idx extrac = 0)
{
    auto Q = g.mat<T, L>(nm, n + extra, n + extrac, want ? C_INOUT : C_NOREF);
    if (!want) g.clsall(Q, C_NOREF);
    return Q;
}
// nearly or exactly equal neighbouring eigenvalues, badly scaled blocks
template <class T, Layout L> void gclose(G& g, KMat<T, L>& A, KMat<T, L>& B)
{
    double d = g.pick({0., 1e-16, 1e-12, 1e-6, 1e-3});
    double sb = g.pick({1., 1., 1e-8, 1e8});
    for (idx j = 0; j < A.n; ++j) {
        A(j, j) = T(Re<T>(1 + d * (j % 3)));
        B(j, j) = T(Re<T>(j % 2 ? sb : 1));
        if (j + 1 < A.n && A(j + 1, j) != T(0)) {
            A(j + 1, j + 1) = A(j, j);
            A(j + 1, j) = T(Re<T>(-0.5));
            A(j, j + 1) = T(Re<T>(0.5 + d * ((j / 2) % 2)));
            B(j + 1, j + 1) = B(j, j);
            ++j;
        }
    }
    if (g.flip(0.3)) for (idx j = 0; j < A.n; ++j) for (idx i = 0; i + 1 < j; ++i) A(i, j) *= Re<T>(g.flip() ? 1e6 : 0);
}
// generalized Schur form
template <class T, Layout L> void gschur(G& g, KMat<T, L>& A, KMat<T, L>& B)
{
    idx n = A.n;
    for (idx j = 0; j < n; ++j) {
        for (idx i = j + 1; i < n; ++i) A(i, j) = T(0), B(i, j) = T(0);
        A(j, j) += T(Re<T>(0.7 * (j % 7)));
        B(j, j) = T(Re<T>(1 + 0.3 * (j % 5)));
    }
    if constexpr (!isC<T>::value)
        for (idx j = 0; j + 1 < n; ++j)
            if (g.flip(0.35)) {
                A(j + 1, j) = T(-0.3 - g.r.unit());
                A(j, j + 1) = T(0.2 + g.r.unit());
                A(j + 1, j + 1) = A(j, j);
                B(j, j + 1) = T(0);
                ++j;
            }
    if (g.flip(0.2)) gclose(g, A, B);
}
}  // namespace kit
template <class T, tlapack::Layout L, class F> static void gghr(sim::Build* b_, const sim::BuildParams* p_, F&& f)
{
    using namespace kit;
    G g(b_, p_);
    HR h = hrange(g);
    bool wq = g.flip(), wz = g.flip();
    if (g.bad(5)) h.hi = h.lo;
    if (g.bad(6)) h.hi = h.n + 1;
    auto A = g.mat<T, L>("A", h.n + g.badd(1), h.n, C_INOUT);
    if (A.m == h.n)
        for (idx j = 0; j < h.n; ++j) for (idx i = j + 1; i < h.n; ++i)
            if (!(j >= h.lo && j + 1 < h.hi && i < h.hi)) A(i, j) = T(0);
    auto B = upB<T, L>(g, h.n + g.badd(2), h.n + g.badd(9));
    // set to zero by the reduction, whatever it holds
    for (idx j = 0; j < h.n; ++j) for (idx i = j + 1; i < B.m; ++i) { B(i, j) = T(1.5); g.setc(B, i, j, C_OUT); }
    auto Q = opt<T, L>(g, "Q", h.n, wq, g.badd(3), g.badd(7));
    auto Z = opt<T, L>(g, "Z", h.n, wz, g.badd(4), g.badd(8));
    f(g, h, wq, wz, A, B, Q, Z);
}
OPF(gghrd)
{
    gghr<T, L>(b_, p_, [](kit::G& g, kit::HR h, bool wq, bool wz, auto A, auto B, auto Q, auto Z) {
        g.flags(sim::F_NOALLOC);
        g.call([=]() mutable { return tlapack::gghrd(wq, wz, h.lo, h.hi, A, B, Q, Z); });
    });
}
OPF(gghd3)
{
    gghr<T, L>(b_, p_, [](kit::G& g, kit::HR h, bool wq, bool wz, auto A, auto B, auto Q, auto Z) {
        tlapack::Gghd3Opts o;
        o.nb = g.nb();
        g.call([=]() mutable { return tlapack::gghd3(wq, wz, h.lo, h.hi, A, B, Q, Z, o); });
    });
}
template <class T, tlapack::Layout L, class F> static void qzit(sim::Build* b_, const sim::BuildParams* p_, int grow, F&& f)
{
    using namespace kit;
    G g(b_, p_);
    if (grow) g.size += grow, g.flags(F_NESTED);
    HR h = hrange(g);
    if (grow && g.size > 20 && g.flip(0.08)) { h.n = 39 + g.r.below(6); h.lo = g.r.below(2); h.hi = h.n - g.r.below(2); }
    bool ws = g.flip(), wq = g.flip(), wz = g.flip();
    auto A = hessA<T, L>(g, h.n, h.lo, h.hi);
    auto B = upB<T, L>(g, h.n + g.badd(1), h.n);
    auto al = g.vec<std::complex<Re<T>>>("alpha", h.n + g.badd(2), C_OUT);
    auto be = g.vec<T>("beta", h.n + g.badd(3), C_OUT);
    for (idx i = 0; i < h.n; ++i) if (i < h.lo || i >= h.hi) g.setcv(al, i, C_NOREF), g.setcv(be, i, C_NOREF);
    auto Q = opt<T, L>(g, "Q", h.n, wq);
    auto Z = opt<T, L>(g, "Z", h.n, wz);
    g.flags(F_INFO | F_ITER);
    f(g, h, ws, wq, wz, A, B, al, be, Q, Z);
}
OPF(lahqz)
{
    qzit<T, L>(b_, p_, 0, [](kit::G& g, kit::HR h, bool ws, bool wq, bool wz, auto A, auto B, auto al, auto be, auto Q, auto Z) {
        g.flags(sim::F_NOALLOC);
        g.call([=]() mutable { return tlapack::lahqz(ws, wq, wz, h.lo, h.hi, A, B, al, be, Q, Z); });
    });
}
OPF(multishift_qz)
{
    qzit<T, L>(b_, p_, 8, [](kit::G& g, kit::HR h, bool ws, bool wq, bool wz, auto A, auto B, auto al, auto be, auto Q, auto Z) {
        tlapack::FrancisOpts o;
        kit::francis(g, o, h.n >= 39 && g.flip(0.7));
        g.call([=]() mutable { return tlapack::multishift_qz(ws, wq, wz, h.lo, h.hi, A, B, al, be, Q, Z, o); });
    });
}
OPF(multishift_QZ_sweep)
{
    BEGIN
    idx n = 12 + g.dim(), lo = 0, hi = n;
    if (g.flip(0.4)) { lo = g.r.below(3); hi = n - g.r.below(3); }
    bool wt = g.flip(), wq = g.flip(), wz = g.flip();
    auto A = hessA<T, L>(g, n, lo, hi);
    auto B = upB<T, L>(g, n, n);
    idx ns = g.pick<idx>({2, 4, 6});
    while (ns / 2 * 3 > (n - 3) / 3 + 3 || ns >= hi - lo) ns -= 2;
    if (ns < 2) ns = 2;
    auto s = g.vec<std::complex<R>>("alpha", ns, C_IN);
    auto be = g.vec<T>("beta", ns, C_IN);
    for (idx i = 0; i + 1 < ns; i += 2) {
        be[i] = be[i + 1] = T(1 + g.r.unit());
        if (CX) continue;
        if (g.flip()) s[i + 1] = std::conj(s[i]);
        else { s[i] = std::real(s[i]); s[i + 1] = std::real(s[i + 1]); }
    }
    auto Q = opt<T, L>(g, "Q", n, wq);
    auto Z = opt<T, L>(g, "Z", n, wz);
    g.call([=]() mutable { tlapack::multishift_QZ_sweep(wt, wq, wz, lo, hi, A, B, s, be, Q, Z); });
}
OPF(aggressive_early_deflation_generalized)
{
    BEGIN
    idx n = 12 + g.dim(), lo = 0, hi = n;
    if (g.flip(0.4)) { lo = g.r.below(3); hi = n - g.r.below(3); }
    idx nw = 1 + g.r.below(8);
    bool wt = g.flip(), wq = g.flip(), wz = g.flip();
    auto A = g.bad(4) ? g.mat<T, L>("A", n + 1, n, C_INOUT) : hessA<T, L>(g, n, lo, hi);
    const bool b5 = g.bad(5), b6 = g.bad(6);
    auto B = b5 || b6 ? g.mat<T, L>("B", n + b5, n + b6, C_INOUT) : upB<T, L>(g, n, n);
    auto s = g.vec<std::complex<R>>("alpha", n + g.badd(1), C_OUT);
    auto be = g.vec<T>("beta", n, C_OUT);
    idx jw = std::min(std::min(nw, hi - lo), (n - 3) / 3), kw = hi - jw;
    for (idx i = 0; i < n; ++i) if (i < kw || i >= hi) g.setcv(s, i, C_NOREF), g.setcv(be, i, C_NOREF);
    auto Q = opt<T, L>(g, "Q", n, wq, wq ? g.badd(2) : 0, wq ? g.badd(7) : 0);
    auto Z = opt<T, L>(g, "Z", n, wz, wz ? g.badd(8) : 0, wz ? g.badd(3) : 0);
    idx& ns = g.cell<idx>("ns", C_OUT);
    idx& nd = g.cell<idx>("nd", C_OUT);
    FrancisOpts o;
    francis(g, o);
    g.flags(F_ITER | F_NESTED);
    g.call([=, &ns, &nd]() mutable { tlapack::aggressive_early_deflation_generalized(wt, wq, wz, lo, hi, nw, A, B, s, be, Q, Z, ns, nd, o); });
}
OPF(generalized_schur_move)
{
    BEGIN
    idx n = g.dim1();
    bool wq = g.flip(), wz = g.flip();
    auto A = g.mat<T, L>("A", n, n, C_INOUT);
    auto B = g.mat<T, L>("B", n, n, C_INOUT);
    gschur(g, A, B);
    auto Q = opt<T, L>(g, "Q", n, wq);
    auto Z = opt<T, L>(g, "Z", n, wz);
    idx& f = g.cell<idx>("ifst", C_INOUT);
    idx& l = g.cell<idx>("ilst", C_INOUT);
    f = g.r.below(n), l = g.r.below(n);
    g.flags(F_INFO);
    g.call([=, &f, &l]() mutable { return tlapack::generalized_schur_move(wq, wz, A, B, Q, Z, f, l); });
}
OPF(generalized_schur_swap)
{
    BEGIN
    idx n = 2 + g.dim();
    bool wq = g.flip(), wz = g.flip();
    idx n1 = 1, n2 = 1;
    if (!CX && n >= 4) { n1 = 1 + g.r.below(2); n2 = 1 + g.r.below(2); }
    idx j0 = g.r.below(n - n1 - n2 + 1);
    auto A = g.mat<T, L>("A", n + g.badd(1), n, C_INOUT);
    auto B = g.mat<T, L>("B", n, n, C_INOUT);
    if (A.m == n) {
        for (idx j = 0; j < n; ++j) {
            for (idx i = j + 1; i < n; ++i) { A(i, j) = B(i, j) = T(0); }
            A(j, j) += T(R(j % 5));
            B(j, j) = T(R(1 + 0.3 * (j % 3)));
        }
        if (n1 == 2) { A(j0 + 1, j0) = T(R(-0.5)); A(j0, j0 + 1) = T(R(0.25 + g.r.unit())); A(j0 + 1, j0 + 1) = A(j0, j0); B(j0, j0 + 1) = T(0); }
        idx k = j0 + n1;
        if (n2 == 2) { A(k + 1, k) = T(R(-0.75)); A(k, k + 1) = T(R(0.25 + g.r.unit())); A(k + 1, k + 1) = A(k, k); B(k, k + 1) = T(0); }
        if (g.flip(0.4)) gclose(g, A, B);
    }
    auto Q = opt<T, L>(g, "Q", n, wq, g.badd(2), g.badd(6));
    auto Z = opt<T, L>(g, "Z", n, wz);
    if (g.bad(3)) n1 = 3;
    if (g.bad(4)) n2 = 0;
    if (g.bad(5)) j0 = n;
    g.flags(F_INFO);
    g.call([=]() mutable { return tlapack::generalized_schur_swap(wq, wz, A, B, Q, Z, j0, n1, n2); });
}
OPF(lahqz_eig22)
{
    BEGIN
    auto A = g.mat<T, L>("A", 2, 2, C_IN);
    auto B = g.mat<T, L>("B", 2, 2, C_IN);
    B(0, 0) += T(2), B(1, 1) += T(2);
    if (g.flip(0.2)) B(0, 0) = g.flip() ? T(0) : B(0, 0) * R(1e-30);
    if (g.flip(0.2)) B(1, 1) = g.flip() ? T(0) : B(1, 1) * R(1e-30);
    if (g.flip(0.1)) B(0, 1) = T(0);
    if (g.flip(0.1)) g.zerocol(A);
    g.setc(B, 1, 0, C_NOREF);
    auto& s1 = g.cell<std::complex<R>>("alpha1", C_OUT);
    auto& s2 = g.cell<std::complex<R>>("alpha2", C_OUT);
    auto& b1 = g.cell<T>("beta1", C_OUT);
    auto& b2 = g.cell<T>("beta2", C_OUT);
    g.nan(0);
    g.flags(F_NOALLOC);
    g.call([=, &s1, &s2, &b1, &b2]() mutable { tlapack::lahqz_eig22(A, B, s1, s2, b1, b2); });
}
OPF(lahqz_shiftcolumn)
{
    BEGIN
    idx n = 2 + g.r.below(2);
    auto H = g.mat<T, L>("A", n + g.badd(1), n, C_IN);
    auto B = g.mat<T, L>("B", n, n, C_IN);
    if (H.m == n) { if (n == 3) H(2, 0) = T(0); for (idx j = 0; j < n; ++j) for (idx i = j + 1; i < n; ++i) B(i, j) = T(0); }
    auto v = g.vec<T>("v", n + g.badd(2), C_OUT);
    auto s1 = g.val<std::complex<R>>(), s2 = std::conj(s1);
    R b1 = R(1 + g.r.unit()), b2 = b1;
    g.flags(F_NOALLOC);
    g.call([=]() mutable { return tlapack::lahqz_shiftcolumn(H, B, v, s1, s2, T(b1), T(b2)); });
}
#ifdef CREAL
OPF(lahqz_schur22)
{
    BEGIN
    auto A = g.mat<T, L>("A", 2, 2, C_INOUT);
    auto B = g.mat<T, L>("B", 2, 2, C_INOUT);
    B(0, 0) += T(2), B(1, 1) += T(2), B(1, 0) = T(0);
    if (g.flip(0.2)) B(g.r.below(2), 1) = T(0);
    if (g.flip(0.15)) B(0, 0) = g.flip() ? T(0) : B(0, 0) * R(1e-30);
    if (g.flip(0.15)) B(1, 1) = g.flip() ? T(0) : B(1, 1) * R(1e-30);
    if (g.flip(0.1)) A(1, 0) = g.flip() ? T(0) : A(1, 0) * R(1e-30);
    if (g.flip(0.1)) g.zerocol(A);
    auto& s1 = g.cell<std::complex<R>>("alpha1", C_OUT);
    auto& s2 = g.cell<std::complex<R>>("alpha2", C_OUT);
    auto& b1 = g.cell<T>("beta1", C_OUT);
    auto& b2 = g.cell<T>("beta2", C_OUT);
    auto& cl = g.cell<T>("cl", C_OUT);
    auto& sl = g.cell<T>("sl", C_OUT);
    auto& cr = g.cell<T>("cr", C_OUT);
    auto& sr = g.cell<T>("sr", C_OUT);
    auto& c0 = g.cell<T>("scal0", C_OUT);
    auto& c1 = g.cell<T>("scal1", C_OUT);
    g.flags(F_NOALLOC | F_ITER);
    g.call([=, &s1, &s2, &b1, &b2, &cl, &sl, &cr, &sr, &c0, &c1]() mutable { tlapack::lahqz_schur22(A, B, s1, s2, b1, b2, cl, sl, cr, sr, c0, c1); });
}
#endif

using namespace sim;
CATALOGUE_BEGIN
REG(gghrd, A_REJECT) REG(gghd3, A_REJECT) REG(lahqz, A_REJECT) REG(multishift_qz, A_REJECT | A_HEAVY) REG(multishift_QZ_sweep, A_HEAVY)
REG(aggressive_early_deflation_generalized, A_REJECT | A_HEAVY) REG(generalized_schur_move, 0) REG(generalized_schur_swap, A_REJECT)
REG(lahqz_eig22, 0) REG(lahqz_shiftcolumn, A_REJECT)
#ifdef CREAL
REG(lahqz_schur22, 0)
#endif
CATALOGUE_END
