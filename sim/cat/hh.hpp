// Householder vectors as stored by the factorizations: n = order, k = number.
#pragma once
namespace kit {
inline bool hhref(Direction d, StoreV sv, idx n, idx k, idx i, idx j)
{
    if (sv == StoreV::Columnwise) return d == Direction::Forward ? i > j : i + k < n + j;
    return d == Direction::Forward ? j > i : j + k < n + i;
}
template <class T, Layout L> KMat<T, L> hhV(G& g, Direction d, StoreV sv, idx n, idx k, const char* name = "V")
{
    bool cw = sv == StoreV::Columnwise;
    auto V = g.mat<T, L>(name, cw ? n : k, cw ? k : n, C_IN);
    for (idx j = 0; j < V.n; ++j) for (idx i = 0; i < V.m; ++i) if (!hhref(d, sv, n, k, i, j)) g.setc(V, i, j, C_NOREF);
    return V;
}
}
