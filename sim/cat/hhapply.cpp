// Generation and application of products of reflectors.
#include "../opkit.hpp"
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/ungq.hpp>
#include <tlapack/lapack/ungq_level2.hpp>
#include <tlapack/lapack/gen_householder_q.hpp>
#include <tlapack/lapack/ung2l.hpp>
#include <tlapack/lapack/ung2r.hpp>
#include <tlapack/lapack/ungl2.hpp>
#include <tlapack/lapack/ungr2.hpp>
#include <tlapack/lapack/ungqr.hpp>
#include <tlapack/lapack/ungql.hpp>
#include <tlapack/lapack/unglq.hpp>
#include <tlapack/lapack/ungrq.hpp>
#include <tlapack/lapack/unmq.hpp>
#include <tlapack/lapack/unmq_level2.hpp>
#include <tlapack/lapack/householder_q_mul.hpp>
#include <tlapack/lapack/unm2l.hpp>
#include <tlapack/lapack/unm2r.hpp>
#include <tlapack/lapack/unml2.hpp>
#include <tlapack/lapack/unmr2.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/unmql.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmrq.hpp>
#include <tlapack/lapack/inv_house3.hpp>
#include "hh.hpp"

namespace kit {
// matrix holding the vectors on entry and Q on exit: the rest is output only
template <class T, Layout L> KMat<T, L> hhA(G& g, Direction d, StoreV sv, idx m, idx n, idx k)
{
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < m; ++i) {
            bool ref = false;
            if (sv == StoreV::Columnwise) {
                if (d == Direction::Forward) ref = j < k && hhref(d, sv, m, k, i, j);
                else ref = j + k >= n && hhref(d, sv, m, k, i, j - (n - k));
            }
            else {
                if (d == Direction::Forward) ref = i < k && hhref(d, sv, n, k, i, j);
                else ref = i + k >= m && hhref(d, sv, n, k, i - (m - k), j);
            }
            if (!ref) g.setc(A, i, j, C_OUT);
        }
    return A;
}
}
#define GENQ(NAME, OPTS, SETOPTS, PASS)                                                                                                               \
    OPF(NAME)                                                                                                                                         \
    {                                                                                                                                                 \
        BEGIN idx a = g.dim1(), b = g.dim1();                                                                                                         \
        Direction d = g.direction();                                                                                                                  \
        StoreV sv = g.storev();                                                                                                                       \
        idx lo = std::min(a, b), hi = std::max(a, b), k = g.dimr(1, lo);                                                                              \
        idx m = sv == StoreV::Columnwise ? hi : lo, n = sv == StoreV::Columnwise ? lo : hi;                                                           \
        auto A = hhA<T, L>(g, d, sv, m, n, k);                                                                                                        \
        if (g.bad(1)) d = (Direction)'?';                                                                                                             \
        auto tau = g.svec<T>("tau", k, C_IN);                                                                                                         \
        OPTS o;                                                                                                                                       \
        SETOPTS;                                                                                                                                      \
        g.pair_<T, L>(tlapack::NAME##_worksize<T>(d, sv, A, tau PASS), [=](auto& W) mutable { return tlapack::NAME##_work(d, sv, A, tau, W PASS); }, [=]() mutable { return tlapack::NAME(d, sv, A, tau PASS); }); \
    }
struct NoOpts {};
#define COMMA_O , o
GENQ(ungq, UngqOpts, o.nb = g.nb(), COMMA_O)
GENQ(ungq_level2, NoOpts, , )
GENQ(gen_householder_q, GenHouseholderQOpts, (o.nb = g.nb(), o.variant = g.flip() ? GenHouseholderQVariant::Level2 : GenHouseholderQVariant::Blocked), COMMA_O)

#define GEN2(NAME, D, SV)                                                                                                                             \
    OPF(NAME)                                                                                                                                         \
    {                                                                                                                                                 \
        BEGIN idx a = g.dim1(), b = g.dim1();                                                                                                         \
        idx lo = std::min(a, b), hi = std::max(a, b), k = g.dimr(1, lo);                                                                              \
        idx m = StoreV::SV == StoreV::Columnwise ? hi : lo, n = StoreV::SV == StoreV::Columnwise ? lo : hi;                                           \
        auto A = hhA<T, L>(g, Direction::D, StoreV::SV, m, n, k);                                                                                     \
        auto tau = g.svec<T>("tau", k, C_IN);                                                                                                         \
        g.pair_<T, L>(tlapack::NAME##_worksize<T>(A, tau), [=](auto& W) mutable { return tlapack::NAME##_work(A, tau, W); }, [=]() mutable { return tlapack::NAME(A, tau); }); \
    }
GEN2(ung2r, Forward, Columnwise)
GEN2(ung2l, Backward, Columnwise)
GEN2(ungl2, Forward, Rowwise)
GEN2(ungr2, Backward, Rowwise)
#define GENB(NAME, D, SV, OPTS)                                                                                                                       \
    OPF(NAME)                                                                                                                                         \
    {                                                                                                                                                 \
        BEGIN idx a = g.dim1(), b = g.dim1();                                                                                                         \
        idx lo = std::min(a, b), hi = std::max(a, b), k = g.dimr(1, lo);                                                                              \
        idx m = StoreV::SV == StoreV::Columnwise ? hi : lo, n = StoreV::SV == StoreV::Columnwise ? lo : hi;                                           \
        if (g.bad(1)) std::swap(m, n);                                                                                                                \
        if (m == n && g.variant == 101) { if (StoreV::SV == StoreV::Columnwise) ++n; else ++m; }                                                      \
        auto A = hhA<T, L>(g, Direction::D, StoreV::SV, m, n, k);                                                                                     \
        auto tau = g.svec<T>("tau", k, C_IN);                                                                                                         \
        OPTS o;                                                                                                                                       \
        o.nb = g.nb();                                                                                                                                \
        g.call([=]() mutable { return tlapack::NAME(A, tau, o); });                                                                                   \
    }
GENB(ungqr, Forward, Columnwise, UngqrOpts)
GENB(ungql, Backward, Columnwise, UngqlOpts)
GENB(unglq, Forward, Rowwise, UnglqOpts)
GENB(ungrq, Backward, Rowwise, UngrqOpts)

#define QMUL(NAME, OPTS, SETOPTS, PASS)                                                                                                               \
    OPF(NAME)                                                                                                                                         \
    {                                                                                                                                                 \
        BEGIN idx m = g.dim1(), n = g.dim1();                                                                                                         \
        Side side = g.side();                                                                                                                         \
        idx q = side == Side::Left ? m : n, k = g.dimr(1, q);                                                                                         \
        Op trans = g.bop(2, CX ? g.pick({Op::NoTrans, Op::ConjTrans}) : g.op3());                                                                     \
        Direction d = g.direction();                                                                                                                  \
        StoreV sv = g.storev();                                                                                                                       \
        auto V = hhV<T, L>(g, d, sv, q + g.badd(4), k);                                                                                               \
        if (g.bad(1)) side = (Side)'?';                                                                                                               \
        if (g.bad(3)) d = (Direction)'?';                                                                                                             \
        auto tau = g.svec<T>("tau", k, C_IN);                                                                                                         \
        auto C = g.mat<T, L>("C", m, n, C_INOUT);                                                                                                     \
        OPTS o;                                                                                                                                       \
        SETOPTS;                                                                                                                                      \
        g.pair_<T, L>(tlapack::NAME##_worksize<T>(side, trans, d, sv, V, tau, C PASS), [=](auto& W) mutable { return tlapack::NAME##_work(side, trans, d, sv, V, tau, C, W PASS); }, \
                     [=]() mutable { return tlapack::NAME(side, trans, d, sv, V, tau, C PASS); });                                                    \
    }
QMUL(unmq, UnmqOpts, o.nb = g.nb(), COMMA_O)
QMUL(unmq_level2, NoOpts, , )
QMUL(householder_q_mul, HouseholderQMulOpts, (o.nb = g.nb(), o.variant = g.flip() ? HouseholderQMulVariant::Level2 : HouseholderQMulVariant::Blocked), COMMA_O)
#define MUL2(NAME, D, SV, OPTS, SETOPTS, PASS)                                                                                                        \
    OPF(NAME)                                                                                                                                         \
    {                                                                                                                                                 \
        BEGIN idx m = g.dim1(), n = g.dim1(); if (g.variant == 101) n = m;                                                                            \
        Side side = g.side();                                                                                                                         \
        idx q = side == Side::Left ? m : n, k = g.dimr(1, q);                                                                                         \
        Op trans = g.bop(2, CX ? g.pick({Op::NoTrans, Op::ConjTrans}) : g.op3());                                                                     \
        auto V = hhV<T, L>(g, Direction::D, StoreV::SV, q + g.badd(3), k);                                                                            \
        if (g.bad(1)) side = (Side)'?';                                                                                                               \
        auto tau = g.svec<T>("tau", k, C_IN);                                                                                                         \
        auto C = g.mat<T, L>("C", m, n, C_INOUT);                                                                                                     \
        OPTS o;                                                                                                                                       \
        SETOPTS;                                                                                                                                      \
        g.call([=]() mutable { return tlapack::NAME(side, trans, V, tau, C PASS); });                                                                 \
    }
MUL2(unm2r, Forward, Columnwise, NoOpts, , )
MUL2(unm2l, Backward, Columnwise, NoOpts, , )
MUL2(unml2, Forward, Rowwise, NoOpts, , )
MUL2(unmr2, Backward, Rowwise, NoOpts, , )
MUL2(unmqr, Forward, Columnwise, UnmqrOpts, o.nb = g.nb(), COMMA_O)
MUL2(unmql, Backward, Columnwise, UnmqlOpts, o.nb = g.nb(), COMMA_O)
MUL2(unmlq, Forward, Rowwise, UnmlqOpts, o.nb = g.nb(), COMMA_O)
MUL2(unmrq, Backward, Rowwise, UnmrqOpts, o.nb = g.nb(), COMMA_O)

OPF(inv_house3)
{
    BEGIN
    auto A = g.mat<T, L>("A", 2, 3, C_IN);
    auto v = g.vec<T>("v", 3, C_OUT);
    auto& tau = g.cell<T>("tau", C_OUT);
    g.nan(0);   // two negligible columns are recognised by a maximum
    g.call([=, &tau]() mutable { tlapack::inv_house3(A, v, tau); });
}
using namespace sim;
CATALOGUE_BEGIN
REG(ungq, A_WORK | A_REJECT) REG(ungq_level2, A_WORK | A_REJECT) REG(gen_householder_q, A_WORK | A_REJECT)
REG(ung2r, A_WORK) REG(ung2l, A_WORK) REG(ungl2, A_WORK) REG(ungr2, A_WORK)
REG(ungqr, A_REJECT) REG(ungql, A_REJECT) REG(unglq, A_REJECT) REG(ungrq, A_REJECT)
REG(unmq, A_WORK | A_REJECT) REG(unmq_level2, A_WORK | A_REJECT) REG(householder_q_mul, A_WORK | A_REJECT)
REG(unm2r, A_REJECT) REG(unm2l, A_REJECT) REG(unml2, A_REJECT) REG(unmr2, A_REJECT)
REG(unmqr, A_REJECT) REG(unmql, A_REJECT) REG(unmlq, A_REJECT) REG(unmrq, A_REJECT)
REG(inv_house3, 0)
CATALOGUE_END
