// Routines with parallel regions of their own (OpenMP), compiled with -fopenmp
// and run on the simulated team.
#define KITATTR sim::A_OMP
#include "../opkit.hpp"
#include <tlapack/lapack/rot_sequence.hpp>  // the next header does not include it
#include <tlapack/lapack/rot_sequence3.hpp>
#include <tlapack/plugins/stdvector.hpp>
#include <cmath>

namespace kit {
template <class T> void omp_rot(G& g, Re<T>& c, T& s)
{
    using R = Re<T>;
    R t = R(3.1) * g.template val<R>();
    c = R(std::cos(t));
    if constexpr (isC<T>::value) { R p = R(3.1) * g.template val<R>(); s = T(R(std::sin(t) * std::cos(p)), R(std::sin(t) * std::sin(p))); }
    else s = R(std::sin(t));
}
// a few blocks of 256 rows or columns, or one short of / one beyond a multiple
inline idx omp_long(G& g)
{
    switch (g.r.below(6)) {
        case 0: return 255 + g.r.below(4);
        case 1: return 511 + g.r.below(4);
        case 2: return 260 + g.r.below(500);
        case 3: return 760 + g.r.below(300);
        default: return 257 + g.r.below(300);
    }
}
using namespace sim;

OPF(omp_rot_sequence3)
{
    BEGIN
    auto side = g.side();
    auto dir = g.direction();
    idx big = omp_long(g), q = 3 + g.r.below(6), l = g.flip(0.05) ? g.dimr(0, 9) : 2 + g.r.below(q - 2);
    idx m = side == Side::Left ? q : big, n = side == Side::Left ? big : q;
    idx k = q - 1;
    auto C = g.mat<R, L>("C", k, l, C_IN);
    auto S = g.mat<T, L>("S", k, l, C_IN);
    for (idx j = 0; j < l; ++j) for (idx i = 0; i < k; ++i) omp_rot<T>(g, C(i, j), S(i, j));
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    g.flags(F_NOALLOC);
    g.call([=]() mutable { tlapack::rot_sequence3(side, dir, C, S, A); });
}
}  // namespace kit

using namespace kit;
CATALOGUE_BEGIN
REG(omp_rot_sequence3, 0)
CATALOGUE_END
