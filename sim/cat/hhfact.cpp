// Householder factorizations and reflector kernels.
#include "../opkit.hpp"
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larft.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/geqr2.hpp>
#include <tlapack/lapack/gelq2.hpp>
#include <tlapack/lapack/geql2.hpp>
#include <tlapack/lapack/gerq2.hpp>
#include <tlapack/lapack/householder_lq.hpp>
#include <tlapack/lapack/householder_ql.hpp>
#include <tlapack/lapack/householder_qr.hpp>
#include <tlapack/lapack/householder_rq.hpp>
#include <tlapack/lapack/gelqt.hpp>
#include <tlapack/lapack/geqrt3.hpp>
#include <tlapack/lapack/trge_qr2.hpp>
#include "hh.hpp"

OPF(larfg)
{
    BEGIN
    auto& alpha = g.cell<T>("alpha", C_INOUT);
    auto x = g.svec<T>("x", g.dim(), C_INOUT);
    auto& tau = g.cell<T>("tau", C_OUT);
    if (g.flip(0.15)) for (idx i = 0; i < x.n; ++i) x[i] = T(0);
    if (g.flip(0.2)) { for (idx i = 0; i < x.n; ++i) x[i] *= std::numeric_limits<R>::min(); alpha *= std::numeric_limits<R>::min(); }
    StoreV sv = g.bad(1) ? (StoreV)'?' : g.storev();
    g.flags(F_NOALLOC);
    g.call([=, &alpha, &tau]() mutable { tlapack::larfg(sv, alpha, x, tau); });
}
OPF(larfg_v)
{
    BEGIN
    auto v = g.svec<T>("v", g.dim1(), C_INOUT);
    auto& tau = g.cell<T>("tau", C_OUT);
    StoreV sv = g.storev();
    Direction d = g.bad(1) ? (Direction)'?' : g.direction();
    g.flags(F_NOALLOC);
    g.call([=, &tau]() mutable { tlapack::larfg(d, sv, v, tau); });
}
OPF(larf)
{
    BEGIN
    idx m = g.dim(), n = g.dim();
    Side side = g.bsd(1, g.side());
    Direction d = g.bad(2) ? (Direction)'?' : g.direction();
    StoreV sv = g.bad(3) ? (StoreV)'?' : g.storev();
    idx k = side == Side::Left ? m : n;
    auto v = g.svec<T>("v", k + g.badd(4), C_IN);
    if (k) g.setcv(v, d == Direction::Forward ? 0 : k - 1, C_NOREF);
    T tau = g.nzscalar<T>();
    auto C = g.mat<T, L>("C", m, n, C_INOUT);
    g.nan(1);
    g.pair_<T, L>(tlapack::larf_worksize<T>(side, d, sv, v, tau, C), [=](auto& W) mutable { tlapack::larf_work(side, d, sv, v, tau, C, W); },
                 [=]() mutable { tlapack::larf(side, d, sv, v, tau, C); });
}
OPF(larf_split)
{
    BEGIN
    idx m = g.dim(), n = g.dim();
    Side side = g.bsd(1, g.side());
    StoreV sv = g.bad(2) ? (StoreV)'?' : g.storev();
    idx k = side == Side::Left ? m : n, l = side == Side::Left ? n : m;
    auto x = g.svec<T>("x", k + g.badd(3), C_IN);
    T tau = g.nzscalar<T>();
    auto C0 = g.svec<T>("C0", l, C_INOUT);
    auto C1 = g.mat<T, L>("C1", m, n, C_INOUT);
    g.nan(1);
    g.pair_<T, L>(tlapack::larf_worksize<T>(side, sv, x, tau, C0, C1), [=](auto& W) mutable { tlapack::larf_work(side, sv, x, tau, C0, C1, W); },
                 [=]() mutable { tlapack::larf(side, sv, x, tau, C0, C1); });
}
OPF(larft)
{
    BEGIN
    idx n = g.dim(), k = g.dimr(0, n);
    Direction d = g.bad(1) ? (Direction)'?' : g.direction();
    StoreV sv = g.bad(2) ? (StoreV)'?' : g.storev();
    auto V = hhV<T, L>(g, d, sv, n, k);
    auto tau = g.svec<T>("tau", k + g.badd(3), C_IN);
    if (k && g.flip(0.2)) tau[g.r.below(k)] = T(0);
    idx kt = k - (k && g.bad(4) ? 1 : 0);
    auto Tm = g.mat<T, L>("T", kt, kt, C_OUT);
    g.tri(Tm, d == Direction::Forward ? Uplo::Upper : Uplo::Lower);
    if (n == 0) g.clsall(Tm, C_NOREF);
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::larft(d, sv, V, tau, Tm); });
}
OPF(larfb)
{
    BEGIN
    idx m = g.dim(), n = g.dim();
    Side side = g.bsd(1, g.side());
    idx q = side == Side::Left ? m : n;
    idx k = g.dimr(q ? 1 : 0, q);
    Op trans = g.bop(2, CX ? g.pick({Op::NoTrans, Op::ConjTrans}) : g.op3());
    Direction d = g.bad(3) ? (Direction)'?' : g.direction();
    StoreV sv = g.bad(4) ? (StoreV)'?' : g.storev();
    auto V = hhV<T, L>(g, d, sv, q + g.badd(5), k);
    auto Tm = g.mat<T, L>("T", k, k + g.badd(6), C_IN);
    g.tri(Tm, d == Direction::Forward ? Uplo::Upper : Uplo::Lower);
    auto C = g.mat<T, L>("C", m, n, C_INOUT);
    g.pair_<T, L>(tlapack::larfb_worksize<T>(side, trans, d, sv, V, Tm, C), [=](auto& W) mutable { return tlapack::larfb_work(side, trans, d, sv, V, Tm, C, W); },
                 [=]() mutable { return tlapack::larfb(side, trans, d, sv, V, Tm, C); });
}
#define FACT2(NAME)                                                                                                                                  \
    OPF(NAME)                                                                                                                                        \
    {                                                                                                                                                \
        BEGIN idx m = g.dim1(), n = g.dim1(), k = std::min(m, n);                                                                                     \
        auto A = g.mat<T, L>("A", m, n, C_INOUT);                                                                                                    \
        if (g.flip(0.1)) g.zerocol(A);                                                                                                               \
        auto tau = g.svec<T>("tau", k - (k > 1 && g.bad(1) ? 1 : 0), C_OUT);                                                                             \
        g.pair_<T, L>(tlapack::NAME##_worksize<T>(A, tau), [=](auto& W) mutable { return tlapack::NAME##_work(A, tau, W); }, [=]() mutable { return tlapack::NAME(A, tau); }); \
    }
FACT2(geqr2)
FACT2(gelq2)
FACT2(geql2)
FACT2(gerq2)
#define FACTF(NAME, OPTS)                                                                                                                            \
    OPF(NAME)                                                                                                                                        \
    {                                                                                                                                                \
        BEGIN idx m = g.dim1(), n = g.dim1(), k = std::min(m, n);                                                                                     \
        auto A = g.mat<T, L>("A", m, n, C_INOUT);                                                                                                    \
        if (g.flip(0.1)) g.zerocol(A);                                                                                                               \
        auto tau = g.svec<T>("tau", k - (k > 1 && g.bad(1) ? 1 : 0), C_OUT);                                                                             \
        OPTS o;                                                                                                                                      \
        o.nb = g.nb();                                                                                                                               \
        g.pair_<T, L>(tlapack::NAME##_worksize<T>(A, tau, o), [=](auto& W) mutable { return tlapack::NAME##_work(A, tau, W, o); }, [=]() mutable { return tlapack::NAME(A, tau, o); }); \
    }
FACTF(geqrf, GeqrfOpts)
FACTF(gelqf, GelqfOpts)
FACTF(geqlf, GeqlfOpts)
FACTF(gerqf, GerqfOpts)
#define FACTH(NAME, OPTS, VAR)                                                                                                                       \
    OPF(NAME)                                                                                                                                        \
    {                                                                                                                                                \
        BEGIN idx m = g.dim1(), n = g.dim1(), k = std::min(m, n);                                                                                     \
        auto A = g.mat<T, L>("A", m, n, C_INOUT);                                                                                                    \
        auto tau = g.svec<T>("tau", k - (k > 1 && g.bad(1) ? 1 : 0), C_OUT);                                                                             \
        OPTS o;                                                                                                                                      \
        o.nb = g.nb();                                                                                                                               \
        o.variant = g.flip() ? VAR::Level2 : VAR::Blocked;                                                                                           \
        g.pair_<T, L>(tlapack::NAME##_worksize<T>(A, tau, o), [=](auto& W) mutable { return tlapack::NAME##_work(A, tau, W, o); }, [=]() mutable { return tlapack::NAME(A, tau, o); }); \
    }
FACTH(householder_qr, HouseholderQROpts, HouseholderQRVariant)
FACTH(householder_lq, HouseholderLQOpts, HouseholderLQVariant)
FACTH(householder_ql, HouseholderQLOpts, HouseholderQLVariant)
FACTH(householder_rq, HouseholderRQOpts, HouseholderRQVariant)
OPF(gelqt)
{
    BEGIN
    idx m = g.dim1(), n = g.dim1(), k = std::min(m, n);
    idx nb = 1 + g.r.below(std::max<idx>(1, std::min<idx>(k, 4)));
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    idx mt = m - (m && g.bad(1) ? 1 : 0);
    auto TT = g.mat<T, L>("TT", mt, nb, C_WORK);
    // block j occupies rows j*nb.., upper triangle
    for (idx j = 0; j < k; j += nb) {
        idx ib = std::min(nb, k - j);
        for (idx a = 0; a < ib; ++a) for (idx c = a; c < ib; ++c) if (j + a < mt) g.setc(TT, j + a, c, C_OUT);
    }
    g.pair_<T, L>(tlapack::gelqt_worksize<T>(A, TT), [=](auto& W) mutable { return tlapack::gelqt_work(A, TT, W); }, [=]() mutable { return tlapack::gelqt(A, TT); });
}
OPF(geqrt3)
{
    BEGIN
    idx n = g.dim1(), m = n + g.r.below(4);
    if (g.bad(1)) m = g.r.below(n);
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    auto Tm = g.mat<T, L>("T", n, n, C_OUT);
    g.tri(Tm, Uplo::Upper, C_WORK);
    Geqrt3Opts o;
    o.nx = 1 + g.r.below(3);
    g.call([=]() mutable { tlapack::geqrt3(A, Tm, o); });
}
OPF(trge_qr2)
{
    BEGIN
    idx n = g.dim1(), m = g.dim1();
    auto A = g.mat<T, L>("A", n + m, n, C_INOUT);
    for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) if (i > j) g.setc(A, i, j, C_NOREF);
    auto tau = g.svec<T>("tau", n, C_OUT);
    g.call([=]() mutable { trge_qr2(A, tau); });
}

using namespace sim;
CATALOGUE_BEGIN
REG(larfg, A_REJECT) REG(larfg_v, A_REJECT) REG(larf, A_WORK | A_REJECT) REG(larf_split, A_WORK | A_REJECT) REG(larft, A_REJECT) REG(larfb, A_WORK | A_REJECT)
REG(geqr2, A_WORK | A_REJECT) REG(gelq2, A_WORK | A_REJECT) REG(geql2, A_WORK | A_REJECT) REG(gerq2, A_WORK | A_REJECT)
REG(geqrf, A_WORK | A_REJECT) REG(gelqf, A_WORK | A_REJECT) REG(geqlf, A_WORK | A_REJECT) REG(gerqf, A_WORK | A_REJECT)
REG(householder_qr, A_WORK | A_REJECT) REG(householder_lq, A_WORK | A_REJECT) REG(householder_ql, A_WORK | A_REJECT) REG(householder_rq, A_WORK | A_REJECT)
REG(gelqt, A_WORK | A_REJECT) REG(geqrt3, A_REJECT) REG(trge_qr2, 0)
CATALOGUE_END
