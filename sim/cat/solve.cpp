// Cholesky, LU, LDL, inverses and triangular products.
#include "../opkit.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/potf2.hpp>
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/lapack/potrf2.hpp>
#include <tlapack/lapack/potrf_blocked.hpp>
#include <tlapack/lapack/potrf_blocked_right_looking.hpp>
#include <tlapack/lapack/potri.hpp>
#include <tlapack/lapack/potrs.hpp>
#include <tlapack/lapack/pttrf.hpp>
#include <tlapack/lapack/pbtrf_with_workspace.hpp>
#include <tlapack/lapack/hetrf.hpp>
#include <tlapack/lapack/lauum_recursive.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
#include <tlapack/lapack/getrf.hpp>
#include <tlapack/lapack/getri.hpp>
#include <tlapack/lapack/mult_llh.hpp>
#include <tlapack/lapack/mult_uhu.hpp>
#include <tlapack/lapack/mult_hehe.hpp>
#include <tlapack/lapack/ul_mult.hpp>
#include <tlapack/lapack/lu_mult.hpp>
#include <tlapack/lapack/hemm2.hpp>
#include <tlapack/lapack/gemmtr.hpp>
#include <tlapack/lapack/trmm_out.hpp>
#include <tlapack/lapack/trsm_tri.hpp>
#include <tlapack/lapack/trmm_blocked_mixed.hpp>

namespace kit {
// Hermitian positive definite operand; sometimes not quite definite
template <class T, Layout L> KMat<T, L> spdA(G& g, Uplo u, idx n, idx n2, bool always = false)
{
    auto A = g.mat<T, L>("A", n, n2, C_INOUT);
    g.spd(A);
    if (!always && n && g.flip(0.15)) { idx i = g.r.below(std::min(n, n2)); A(i, i) = T(-1); }
    if (n == n2) g.tri(A, u);
    return A;
}
}

template <class T, tlapack::Layout L, class F> static void chol(sim::Build* b_, const sim::BuildParams* p_, F&& f)
{
    using namespace kit;
    G g(b_, p_);
    Uplo u = g.uplo();
    idx n = g.dim();
    idx nn = n + g.badd(1);
    auto A = spdA<T, L>(g, u, nn, n);
    u = g.bup(2, u);
    g.flags(F_INFO);
    idx nb = g.nb();
    f(g, u, A, nb);
}
OPF(potf2) { chol<T, L>(b_, p_, [](kit::G& g, tlapack::Uplo u, auto A, size_t) { g.call([=]() mutable { return tlapack::potf2(u, A); }); }); }
OPF(potrf2) { chol<T, L>(b_, p_, [](kit::G& g, tlapack::Uplo u, auto A, size_t) { tlapack::EcOpts o; g.ecopts(o); g.call([=]() mutable { return tlapack::potrf2(u, A, o); }); }); }
OPF(potrf_blocked)
{
    chol<T, L>(b_, p_, [](kit::G& g, tlapack::Uplo u, auto A, size_t nb) {
        tlapack::BlockedCholeskyOpts o;
        o.nb = nb;
        g.ecopts(o);
        g.call([=]() mutable { return tlapack::potrf_blocked(u, A, o); });
    });
}
OPF(potrf_rl)
{
    chol<T, L>(b_, p_, [](kit::G& g, tlapack::Uplo u, auto A, size_t nb) {
        tlapack::BlockedCholeskyOpts o;
        o.nb = nb;
        g.ecopts(o);
        g.call([=]() mutable { return tlapack::potrf_rl(u, A, o); });
    });
}
OPF(potrf)
{
    chol<T, L>(b_, p_, [](kit::G& g, tlapack::Uplo u, auto A, size_t nb) {
        using V = tlapack::PotrfVariant;
        tlapack::PotrfOpts o;
        o.nb = nb;
        g.ecopts(o);
        o.variant = g.bad(3) ? (V)'?' : g.pick({V::Blocked, V::Recursive, V::Level2, V::RightLooking});
        g.call([=]() mutable { return tlapack::potrf(u, A, o); });
    });
}
OPF(potri)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim();
    auto A = spdA<T, L>(g, u, n + g.badd(1), n, true);
    u = g.bup(2, u);
    g.call([=]() mutable { tlapack::potri(u, A); });
}
OPF(potrs)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim(), m = g.dim();
    auto A = g.mat<T, L>("A", n, n + g.badd(2), C_IN);
    g.domdiag(A);
    if (g.variant != 102) g.tri(A, u);
    auto B = g.mat<T, L>("B", n + g.badd(3), m, C_INOUT);
    u = g.bup(1, u);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=]() mutable { return tlapack::potrs(u, A, B); });
}
OPF(pttrf)
{
    BEGIN
    idx n = g.dim1();
    auto D = g.svec<R>("D", n, C_INOUT);
    for (idx i = 0; i < n; ++i) D[i] = R(3 + i % 3);
    if (g.flip(0.15)) D[g.r.below(n)] = R(-1);
    auto E = g.svec<T>("E", n - 1 + g.badd(1), C_INOUT);
    g.flags(F_INFO | F_NOALLOC);
    EcOpts o;
    g.ecopts(o);
    g.call([=]() mutable { return tlapack::pttrf(D, E, o); });
}
OPF(pbtrf_with_workspace)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim1(), kd = g.dimr(0, n - 1);
    if (g.bad(1)) kd = n;
    auto A = spdA<T, L>(g, u, n + g.badd(2), n, true);
    if (A.m == A.n) for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) if (i > j + kd || j > i + kd) g.setc(A, i, j, C_NOREF);
    u = g.bup(3, u);
    BlockedBandedCholeskyOpts o;
    o.nb = g.nb();
    g.ecopts(o);
    g.call([=]() mutable { tlapack::pbtrf_with_workspace(u, A, kd, o); });
}
OPF(hetrf)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim1();
    HetrfOpts o;
    o.nb = g.pick<idx>({2, 3, 4, 5, 8, 32});
    o.invariant = g.flip() ? Op::Trans : Op::ConjTrans;
    auto A = g.mat<T, L>("A", n + g.badd(1), n, C_INOUT);
    if (o.invariant == Op::ConjTrans) g.realdiag(A);
    if (g.flip(0.4)) for (idx i = 0; i < n; ++i) A(i, i) *= R(0.01);
    if (g.flip(0.1)) for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) A(i, j) = T(0);
    if (A.m == A.n) g.tri(A, u);
    if (g.bad(3)) o.invariant = (Op)'?';
    if (g.bad(4)) o.variant = (HetrfVariant)'?';
    auto ipiv = g.vec<int>("ipiv", n, C_OUT);
    u = g.bup(2, u);
    g.flags(F_INFO);
    g.pair_<T, L>(tlapack::hetrf_blocked_worksize<T>(A, o), [=](auto& W) mutable { return tlapack::hetrf_work(u, A, ipiv, W, o); }, [=]() mutable { return tlapack::hetrf(u, A, ipiv, o); });
}
OPF(lauum_recursive)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim();
    auto A = g.mat<T, L>("A", n + g.badd(1), n, C_INOUT);
    if (A.m == A.n) g.tri(A, u);
    u = g.bup(2, u);
    g.call([=]() mutable { return tlapack::lauum_recursive(u, A); });
}
OPF(trtri_recursive)
{
    BEGIN
    Uplo u = g.uplo();
    Diag d = g.diag_();
    idx n = g.dim();
    auto A = g.mat<T, L>("A", n + g.badd(1), n, C_INOUT);
    if (d == Diag::NonUnit) g.domdiag(A); else g.scaleall(A, 0.3);
    if (d == Diag::NonUnit && n && g.flip(0.1)) { idx i = g.r.below(n); A(i, i) = T(0); }
    if (A.m == A.n) { g.tri(A, u); if (d == Diag::Unit) g.diagcls(A, C_NOREF); }
    u = g.bup(2, u);
    d = g.bdg(3, d);
    g.flags(F_INFO);
    EcOpts o;
    g.ecopts(o);
    g.call([=]() mutable { return tlapack::trtri_recursive(u, d, A, o); });
}
template <class T, tlapack::Layout L, class F> static void lu(sim::Build* b_, const sim::BuildParams* p_, F&& f)
{
    using namespace kit;
    G g(b_, p_);
    idx m = g.dim1(), n = g.dim1();
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    if (g.flip(0.15)) g.zerocol(A);
    auto piv = g.vec<size_t>("piv", std::min(m, n) - g.badd(1), C_OUT);
    g.flags(F_INFO);
    f(g, A, piv);
}
OPF(getrf)
{
    lu<T, L>(b_, p_, [](kit::G& g, auto A, auto piv) {
        tlapack::GetrfOpts o;
        o.variant = g.flip() ? tlapack::GetrfVariant::Recursive : tlapack::GetrfVariant::Level0;
        g.call([=]() mutable { return tlapack::getrf(A, piv, o); });
    });
}
OPF(getrf_recursive) { lu<T, L>(b_, p_, [](kit::G& g, auto A, auto piv) { g.call([=]() mutable { return tlapack::getrf_recursive(A, piv); }); }); }
OPF(getrf_level0) { lu<T, L>(b_, p_, [](kit::G& g, auto A, auto piv) { g.call([=]() mutable { return tlapack::getrf_level0(A, piv); }); }); }
OPF(getri)
{
    BEGIN
    idx n = g.dim1();
    GetriOpts o;
    o.variant = g.flip() ? GetriVariant::UILI : GetriVariant::UXLI;
    auto A = g.mat<T, L>("A", n + g.badd(1), n, C_INOUT);
    g.domdiag(A);
    if (g.flip(0.1)) { idx i = g.r.below(n); A(i, i) = T(0); }
    auto piv = g.vec<size_t>("piv", n, C_IN);
    for (idx i = 0; i < n; ++i) piv[i] = i + g.r.below(n - i);
    g.flags(F_INFO);
    g.pair_<T, L>(tlapack::getri_worksize<T>(A, piv, o), [=](auto& W) mutable { return tlapack::getri_work(A, piv, W, o); }, [=]() mutable { return tlapack::getri(A, piv, o); });
}
OPF(getri_uili)
{
    BEGIN
    idx n = g.dim1();
    auto A = g.mat<T, L>("A", n + g.badd(1), n, C_INOUT);
    g.domdiag(A);
    g.flags(F_INFO);
    g.call([=]() mutable { return tlapack::getri_uili(A); });
}
OPF(getri_uxli)
{
    BEGIN
    idx n = g.dim1();
    auto A = g.mat<T, L>("A", n + g.badd(1), n, C_INOUT);
    g.domdiag(A);
    g.flags(F_INFO);
    g.pair_<T, L>(tlapack::getri_uxli_worksize<T>(A), [=](auto& W) mutable { return tlapack::getri_uxli_work(A, W); }, [=]() mutable { return tlapack::getri_uxli(A); });
}
OPF(mult_llh)
{
    BEGIN
    idx n = g.dim();
    auto A = g.mat<T, L>("L", n + g.badd(1), n, C_INOUT);
    if (A.m == A.n) g.tri(A, Uplo::Lower);
    mult_llh_Opts o;
    o.nx = g.bad(2) ? 0 : g.nb();
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::mult_llh(A, o); });
}
OPF(mult_uhu)
{
    BEGIN
    idx n = g.dim();
    auto A = g.mat<T, L>("U", n + g.badd(1), n, C_INOUT);
    if (A.m == A.n) g.tri(A, Uplo::Upper);
    mult_uhu_Opts o;
    o.nx = g.bad(2) ? 0 : g.nb();
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::mult_uhu(A, o); });
}
OPF(lu_mult)
{
    BEGIN
    idx n = g.dim();
    auto A = g.mat<T, L>("A", n + g.badd(1), n, C_INOUT);
    LuMultOpts o;
    o.nx = g.bad(2) ? 0 : g.nb();
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::lu_mult(A, o); });
}
OPF(ul_mult)
{
    BEGIN
    idx n = g.dim();
    auto A = g.mat<T, L>("A", n + g.badd(1), n, C_INOUT);
    g.flags(F_NOALLOC);
    g.call([=]() mutable { return tlapack::ul_mult(A); });
}
OPF(mult_hehe)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim();
    auto A = g.mat<T, L>("A", n, n, C_IN);
    auto B = g.mat<T, L>("B", n, n, C_IN);
    g.tri(A, u);
    g.tri(B, u);
    g.imagdiag(A, C_NOREF);
    g.imagdiag(B, C_NOREF);
    auto C = g.mat<T, L>("C", n, n, C_INOUT);
    auto alpha = g.nzscalar<T>(), beta = g.nzscalar<T>();
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::mult_hehe(u, alpha, A, B, beta, C); });
}
OPF(hemm2)
{
    BEGIN
    Side s = g.side();
    Uplo u = g.uplo();
    Op t = g.op3();
    idx m = g.dim(), n = g.dim();   // op(B) is m by n
    idx k = (s == Side::Left ? m : n) + g.badd(5);
    auto A = g.mat<T, L>("A", k, k + g.badd(1), C_IN);
    if (A.m == A.n) { g.tri(A, u); g.imagdiag(A, C_NOREF); }
    auto B = t == Op::NoTrans ? g.mat<T, L>("B", m, n, C_IN) : g.mat<T, L>("B", n, m, C_IN);
    auto C = g.mat<T, L>("C", m + g.badd(2), n + g.badd(6), C_INOUT);
    auto alpha = g.nzscalar<T>(), beta = g.scalar<T>();
    s = g.bsd(3, s);
    u = g.bup(4, u);
    g.call([=]() mutable { tlapack::hemm2(s, u, t, alpha, A, B, beta, C); });
}
OPF(gemmtr)
{
    BEGIN
    Uplo u = g.uplo();
    Op ta = g.op3(), tb = g.op3();
    idx n = g.dim(), k = g.dim();
    idx na = n + g.badd(5);
    auto A = ta == Op::NoTrans ? g.mat<T, L>("A", na, k, C_IN) : g.mat<T, L>("A", k, na, C_IN);
    idx kb = k + g.badd(4);
    auto B = tb == Op::NoTrans ? g.mat<T, L>("B", kb, n, C_IN) : g.mat<T, L>("B", n, kb, C_IN);
    const idx nc = n + g.badd(6);
    auto C = g.mat<T, L>("C", nc, nc, C_INOUT);
    g.tri(C, u);
    auto alpha = g.nzscalar<T>(), beta = g.scalar<T>();
    u = g.bup(1, u);
    ta = g.bop(2, ta);
    tb = g.bop(3, tb);
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::gemmtr(u, ta, tb, alpha, A, B, beta, C); });
}
OPF(trmm_out)
{
    BEGIN
    Side s = g.side();
    Uplo u = g.uplo();
    Diag d = g.diag_();
    Op tb = g.op3();
    idx m = g.dim(), n = g.dim();   // C
    idx k = s == Side::Left ? m : n;
    auto A = g.mat<T, L>("A", k, k, C_IN);
    g.tri(A, u);
    if (d == Diag::Unit) g.diagcls(A, C_NOREF);
    auto B = tb == Op::NoTrans ? g.mat<T, L>("B", m, n, C_IN) : g.mat<T, L>("B", n, m, C_IN);
    auto C = g.mat<T, L>("C", m, n, C_INOUT);
    auto alpha = g.nzscalar<T>(), beta = g.scalar<T>();
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::trmm_out(s, u, Op::NoTrans, d, tb, alpha, A, B, beta, C); });
}
OPF(trsm_tri)
{
    BEGIN
    Side s = g.side();
    Uplo u = g.uplo();   // shape of B
    Op t = g.op3();
    Diag d = g.diag_();
    idx n = g.dim();
    Uplo ua = t == Op::NoTrans ? u : (u == Uplo::Upper ? Uplo::Lower : Uplo::Upper);
    auto A = g.mat<T, L>("A", n, n, C_IN);
    if (d == Diag::NonUnit) g.domdiag(A); else g.scaleall(A, 0.3);
    g.tri(A, ua);
    if (d == Diag::Unit) g.diagcls(A, C_NOREF);
    auto B = g.mat<T, L>("B", n, n, C_INOUT);
    g.tri(B, u);
    auto alpha = g.nzscalar<T>();
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::trsm_tri(s, u, t, d, alpha, A, B); });
}
OPF(trmm_blocked_mixed)
{
    BEGIN
    Diag d = g.diag_();
    idx m = g.dim1(), n = g.dim1();
    auto A = g.mat<T, L>("A", m, m + g.badd(3), C_IN);
    if (A.m == A.n) { g.tri(A, Uplo::Upper); if (d == Diag::Unit) g.diagcls(A, C_NOREF); }
    auto B = g.mat<T, L>("B", m, n, C_INOUT);
    TrmmBlockedOpts o;
    o.nb = g.nb();
    auto alpha = g.nzscalar<T>();
    auto W = g.mat<T, L>("work", o.nb, n, C_WORK);
    Side s = g.bsd(1, Side::Left);
    Uplo u = g.bup(2, Uplo::Upper);
    d = g.bdg(4, d);
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::trmm_blocked_mixed(s, u, Op::NoTrans, d, alpha, A, B, W, o); });
}

using namespace sim;
CATALOGUE_BEGIN
REG(potf2, A_REJECT) REG(potrf2, A_REJECT) REG(potrf_blocked, A_REJECT) REG(potrf_rl, A_REJECT) REG(potrf, A_REJECT) REG(potri, A_REJECT)
REG(potrs, A_REJECT) REG(pbtrf_with_workspace, A_REJECT) REG(hetrf, A_WORK | A_REJECT) REG(lauum_recursive, A_REJECT)
REG(trtri_recursive, A_REJECT) REG(getrf, 0) REG(getrf_recursive, 0) REG(getrf_level0, 0) REG(getri, A_WORK | A_REJECT) REG(getri_uili, A_REJECT)
REG(getri_uxli, A_WORK | A_REJECT) REG(mult_llh, A_REJECT) REG(mult_uhu, A_REJECT) REG(lu_mult, A_REJECT) REG(ul_mult, A_REJECT) REG(mult_hehe, 0)
REG(hemm2, A_REJECT) REG(gemmtr, A_REJECT) REG(trmm_out, 0) REG(trsm_tri, 0) REG(trmm_blocked_mixed, A_REJECT)
#ifdef CREAL
REG(pttrf, A_REJECT)
#endif
CATALOGUE_END
