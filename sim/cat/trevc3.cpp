// Blocked eigenvector computation (its own unit: its header and trevc.hpp exclude each other).
#include "../opkit.hpp"
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/trevc3.hpp>

namespace kit {
// growth: small diagonal, huge entries above it
template <class T, Layout L> void wild(G& g, KMat<T, L>& A)
{
    int big = sizeof(Re<T>) == 4 ? 100 : 900;
    int lo = (int)g.r.below(big), hi = (int)g.r.below(big + big / 4);
    for (idx j = 0; j < A.n; ++j) {
        bool blk = j + 1 < A.n && A(j + 1, j) != T(0);
        if (g.flip(0.5)) A(j, j) *= Re<T>(std::ldexp(1.0, -lo));
        if (blk) A(j + 1, j + 1) = A(j, j);
        for (idx i = 0; i < j; ++i)
            if (!(i + 1 == j && A(j, i) != T(0)) && g.flip(0.7)) A(i, j) *= Re<T>(std::ldexp(1.0, hi));
        if (blk) {
            for (idx i = 0; i < j; ++i) if (g.flip(0.7)) A(i, j + 1) *= Re<T>(std::ldexp(1.0, hi));
            int e = (int)g.r.below(lo + 1);
            if (g.flip()) e = -e;
            A(j, j + 1) *= Re<T>(std::ldexp(1.0, e));
            A(j + 1, j) *= Re<T>(std::ldexp(1.0, g.flip() ? -e : e / 2));
            ++j;
        }
    }
}
template <class T, Layout L> KMat<T, L> schurT3(G& g, idx n)
{
    auto A = g.mat<T, L>("T", n, n, C_IN);
    for (idx j = 0; j < n; ++j) {
        for (idx i = j + 2; i < n; ++i) A(i, j) = T(0);
        A(j, j) += T(Re<T>(0.7 * (j % 7)));
        if (j + 1 < n) A(j + 1, j) = T(0);
    }
    if constexpr (!isC<T>::value)
        for (idx j = 0; j + 1 < n; ++j)
            if (g.flip(0.35)) {
                A(j + 1, j) = T(-0.3 - g.r.unit());
                A(j, j + 1) = T(0.2 + g.r.unit());
                A(j + 1, j + 1) = A(j, j);
                ++j;
            }
    if (n > 1 && g.flip(0.2)) wild(g, A);
    else if (n > 1 && g.flip(0.1)) for (idx j = 0; j < n; ++j) if (!(j && A(j, j - 1) != T(0)) && !(j + 1 < n && A(j + 1, j) != T(0))) A(j, j) = T(1);
    return A;
}
}
OPF(trevc3)
{
    BEGIN
    idx n = g.dim();
    Side s = g.pick({Side::Left, Side::Right, Side::Both});
    HowMny hm = g.pick({HowMny::All, HowMny::Back, HowMny::Select});
    auto A = schurT3<T, L>(g, n);
    auto sel = g.vec<int>("select", n, hm == HowMny::Select ? C_INOUT : C_NOREF);
    idx m = n;
    if (hm == HowMny::Select) {
        m = 0;
        double p = g.pick({0.0, 0.3, 0.5, 0.8, 1.0});
        for (idx j = 0; j < n; ++j) {
            sel[j] = g.flip(p);
            if (j + 1 < n && A(j + 1, j) != T(0)) { sel[j + 1] = g.flip(p); if (sel[j] || sel[j + 1]) m += 2; ++j; }
            else m += sel[j];
        }
    }
    bool sh = m && n && g.bad(1);
    int c = hm == HowMny::Back ? C_INOUT : C_OUT;
    auto Vl = g.mat<T, L>("Vl", n, m - sh, s == Side::Right ? C_NOREF : c);
    auto Vr = g.mat<T, L>("Vr", n, m - sh, s == Side::Left ? C_NOREF : c);
    if (s == Side::Right) g.clsall(Vl, C_NOREF);
    if (s == Side::Left) g.clsall(Vr, C_NOREF);
    Trevc3Opts o;
    o.block_size = g.pick<size_t>({1, 2, 3, 4, 64});
    o.block_size_solve = g.pick<size_t>({1, 2, 3, 4, 64});
    g.nan(0);
    g.flags(F_ENTRY);
    WorkInfo w = trevc3_worksize(s, hm, sel, A, Vl, Vr, o);
    auto rw = g.vec<R>("rwork", n, C_WORK);
    auto W = g.vec<T>("work", w.size(), C_WORK);
    if (g.variant == 1) g.call([=]() mutable { return trevc3(s, hm, sel, A, Vl, Vr, o); });
    else {
        g.flags(F_NOALLOC);
        g.call([=]() mutable { return trevc3_work(s, hm, sel, A, Vl, Vr, rw, W, o); });
    }
}
using namespace sim;
CATALOGUE_BEGIN
REG(trevc3, A_WORK)
CATALOGUE_END
