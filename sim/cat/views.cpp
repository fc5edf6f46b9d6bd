// Views of the matrix classes: slices, rows, columns, diagonals, transposed and
// reshaped views of column-major, row-major, strided and backward storage. A
// call fills the view; every element outside of it is off limits.
#include "../opkit.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/blas/copy.hpp>

namespace kit {
using namespace sim;
template <class T> T vtag(idx k) { return T(Re<T>(double(k) + 0.5)); }
template <class M> int64_t vfillm(M&& A, idx base = 0)
{
    using T = type_t<M>;
    const idx m = nrows(A), n = ncols(A);
    for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) A(i, j) = vtag<T>(base + i + j * m);
    return (int64_t)(m * 1000 + n);
}
template <class V> int64_t vfillv(V&& x, idx base = 0)
{
    using T = type_t<V>;
    const idx n = tlapack::size(x);
    for (idx i = 0; i < n; ++i) x[i] = vtag<T>(base + i);
    return (int64_t)n;
}
template <class M> double vsumm(const M& A)
{
    double s = 0;
    const idx m = nrows(A), n = ncols(A);
    for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) s += double(1 + i + 3 * j) * double(real(A(i, j)));
    return s;
}
template <class V> double vsumv(const V& x)
{
    double s = 0;
    const idx n = tlapack::size(x);
    for (idx i = 0; i < n; ++i) s += double(1 + i) * double(real(x[i]));
    return s;
}
inline void rng2(G& g, idx n, idx& a, idx& b) { a = g.r.below(n + 1); b = a + g.r.below(n - a + 1); if (a == b && n && g.flip(0.8)) { a = g.r.below(n); b = a + 1 + g.r.below(n - a); } }

// rectangle (and lines) of a matrix, written or read through a view
OPF(view_matrix)
{
    BEGIN
    idx m = g.dim1() + 1, n = g.dim1() + 1;
    int mode = (int)g.r.below(9);
    bool rd = g.flip(0.35);
    auto A = g.mat<T, L>("A", m, n, rd ? C_IN : C_INOUT);
    auto* out = &g.cell<double>("sum", C_OUT);
    idx i0, i1, j0, j1;
    rng2(g, m, i0, i1); rng2(g, n, j0, j1);
    idx k0 = 0, k1 = 0;
    idx i = g.r.below(m), j = g.r.below(n);
    int d = (int)g.r.below(m + n - 1) - (int)(m - 1);
    auto in = [=](idx a, idx b) {
        switch (mode) {
            case 0: return a >= i0 && a < i1 && b >= j0 && b < j1;
            case 1: return a >= i0 && a < i1 && b == j;
            case 2: return a == i && b >= j0 && b < j1;
            case 3: return a >= i0 && a < i1;
            case 4: return b >= j0 && b < j1;
            case 5: return a == i;
            case 6: return b == j;
            case 7: return (long)b - (long)a == d;
            default: return a >= i0 && a < i1 && b >= j0 && b < j1; // via the transposed view
        }
    };
    (void)k0; (void)k1;
    for (idx b = 0; b < n; ++b) for (idx a = 0; a < m; ++a) g.setc(A, a, b, in(a, b) ? (rd ? C_IN : C_OUT) : (rd ? C_NOREF : C_NOREF));
    g.flags(F_NOALLOC);
    g.nan(0);
    using range = std::pair<idx, idx>;
    g.call([=]() mutable -> int64_t {
        auto M = [&](auto&& V) -> int64_t { if (rd) { *out = vsumm(V); return (int64_t)(nrows(V) * 1000 + ncols(V)); } *out = 0; return vfillm(V); };
        auto V1 = [&](auto&& V) -> int64_t { if (rd) { *out = vsumv(V); return (int64_t)tlapack::size(V); } *out = 0; return vfillv(V); };
        const auto& CA = A;
        switch (mode) {
            case 0: return rd ? [&] { auto V = slice(CA, range(i0, i1), range(j0, j1)); *out = vsumm(V); return (int64_t)(nrows(V) * 1000 + ncols(V)); }() : M(slice(A, range(i0, i1), range(j0, j1)));
            case 1: return rd ? [&] { auto V = slice(CA, range(i0, i1), j); *out = vsumv(V); return (int64_t)tlapack::size(V); }() : V1(slice(A, range(i0, i1), j));
            case 2: return rd ? [&] { auto V = slice(CA, i, range(j0, j1)); *out = vsumv(V); return (int64_t)tlapack::size(V); }() : V1(slice(A, i, range(j0, j1)));
            case 3: return rd ? [&] { auto V = rows(CA, range(i0, i1)); *out = vsumm(V); return (int64_t)(nrows(V) * 1000 + ncols(V)); }() : M(rows(A, range(i0, i1)));
            case 4: return rd ? [&] { auto V = cols(CA, range(j0, j1)); *out = vsumm(V); return (int64_t)(nrows(V) * 1000 + ncols(V)); }() : M(cols(A, range(j0, j1)));
            case 5: return rd ? [&] { auto V = row(CA, i); *out = vsumv(V); return (int64_t)tlapack::size(V); }() : V1(row(A, i));
            case 6: return rd ? [&] { auto V = col(CA, j); *out = vsumv(V); return (int64_t)tlapack::size(V); }() : V1(col(A, j));
            case 7: return rd ? [&] { auto V = diag(CA, d); *out = vsumv(V); return (int64_t)tlapack::size(V); }() : V1(diag(A, d));
            default: {
                if (rd) { auto At = transpose_view(CA); auto V = slice(At, range(j0, j1), range(i0, i1)); *out = vsumm(V); return (int64_t)(nrows(V) * 1000 + ncols(V)); }
                auto At = transpose_view(A);
                return M(slice(At, range(j0, j1), range(i0, i1)));
            }
        }
    });
}
// a slice of a slice, set and copied with the library's routines
OPF(view_nested)
{
    BEGIN
    idx m = g.dim1() + 2, n = g.dim1() + 2;
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    idx i0, i1, j0, j1, p0, p1, q0, q1;
    rng2(g, m, i0, i1); rng2(g, n, j0, j1); rng2(g, i1 - i0, p0, p1); rng2(g, j1 - j0, q0, q1);
    for (idx b = 0; b < n; ++b) for (idx a = 0; a < m; ++a)
        g.setc(A, a, b, a >= i0 + p0 && a < i0 + p1 && b >= j0 + q0 && b < j0 + q1 ? C_OUT : C_NOREF);
    bool tr = g.flip();
    auto B = g.mat<T, L>("B", tr ? q1 - q0 : p1 - p0, tr ? p1 - p0 : q1 - q0, C_IN);
    g.flags(F_NOALLOC);
    using range = std::pair<idx, idx>;
    g.call([=]() mutable {
        auto S = slice(A, range(i0, i1), range(j0, j1));
        auto S2 = slice(S, range(p0, p1), range(q0, q1));
        if (tr) { auto St = transpose_view(S2); lacpy(Uplo::General, B, St); }
        else lacpy(Uplo::General, B, S2);
    });
}
OPF(view_vector)
{
    BEGIN
    idx n = g.dim1() + 2;
    auto x = g.svec<T>("x", n, C_INOUT);
    idx a, b, c, d;
    rng2(g, n, a, b); rng2(g, b - a, c, d);
    for (idx i = 0; i < n; ++i) g.setcv(x, i, i >= a + c && i < a + d ? C_OUT : C_NOREF);
    auto y = g.svec<T>("y", d - c, C_IN);
    g.flags(F_NOALLOC);
    using range = std::pair<idx, idx>;
    g.call([=]() mutable {
        auto v = slice(x, range(a, b));
        auto w = slice(v, range(c, d));
        tlapack::copy(y, w);
    });
}
// reshape of a matrix into a matrix or vector and the rest: both parts are
// inside the matrix, disjoint, and a shape that does not fit is refused
OPF(view_reshape)
{
    BEGIN
    idx m = g.dim1(), n = g.dim1();
    bool b1 = g.bad(1);
    bool contiguous = g.flip();
    auto A = contiguous ? g.matld<T, L>("A", m, n, L == Layout::ColMajor ? m : n, C_OUT) : g.mat<T, L>("A", m, n, C_OUT);
    const idx ldim = A.ldim;
    const bool cont = L == Layout::ColMajor ? (ldim == m || n <= 1) : (ldim == n || m <= 1);
    bool vec = g.flip();
    idx p, q = 1;
    if (b1) { p = m * n + 1 + g.r.below(3); }
    else if (cont) { p = g.r.below(m + 2); q = p ? g.r.below(m * n / p + 1) : g.r.below(4); if (vec) { p = g.r.below(m * n + 1); } }
    else if (vec) p = g.pick<idx>({0, m, n});
    else if (g.flip()) { p = m; q = g.r.below(n + 1); }
    else { p = g.r.below(m + 1); q = n; }
    idx sp = vec ? p : p * q;
    // which elements are in the two parts
    g.flags(F_NOALLOC);
    if (b1) g.flags(F_NOALLOC);
    // in column-major order of a contiguous block or by rows and columns otherwise the
    // parts cover all of A (the callee fills both)
    (void)sp;
    g.call([=]() mutable -> int64_t {
        if (vec) {
            auto [v, R2] = reshape(A, p);
            int64_t a = vfillv(v, 0);
            return a * 1000000 + vfillm(R2, 5000);
        }
        auto [B, R2] = reshape(A, p, q);
        int64_t a = vfillm(B, 0);
        return a * 1000000 + vfillm(R2, 5000);
    });
}
OPF(view_reshape_vec)
{
    BEGIN
    idx n = g.dim1() + 1;
    auto x = g.svec<T>("x", n, C_OUT);
    bool b1 = g.bad(1);
    bool vec = g.flip();
    idx p, q;
    if (vec) { p = b1 ? n + 1 : g.r.below(n + 1); q = 1; }
    else if (x.inc == 1) { p = g.r.below(n + 1); q = p ? g.r.below(n / p + 1) : 0; if (b1) { p = n + 1; q = 1; } }
    else { p = 1; q = b1 ? n + 1 : g.r.below(n + 1); }
    g.flags(F_NOALLOC);
    g.call([=]() mutable -> int64_t {
        if (vec) {
            auto [v, w] = reshape(x, p);
            int64_t a = vfillv(v, 0);
            return a * 100000 + vfillv(w, 5000);
        }
        auto [B, w] = reshape(x, p, q);
        int64_t a = vfillm(B, 0);
        return a * 100000 + vfillv(w, 5000);
    });
}
// banded storage: only the band is touched
OPF(view_banded)
{
    BEGIN
    idx m = g.dim1(), n = g.dim1(), kl = g.r.below(m), ku = g.r.below(n);
    bool rd = g.flip();
    T* p = (T*)sim_operand(b_, "A", kindof<T>::v, sizeof(T), (kl + ku + 1) * n, C_NOREF);
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < m; ++i)
            if (i + ku >= j && i <= j + kl) {
                T* e = p + (ku + i - j) + j * (kl + ku + 1);
                sim_setcls(b_, e, sizeof(T), rd ? C_IN : C_OUT);
                *e = g.val<T>();
            }
    auto* out = &g.cell<double>("sum", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(0);
    LegacyBandedMatrix<T, idx> A(m, n, kl, ku, p);
    g.call([=]() mutable -> int64_t {
        double s = 0;
        for (idx j = 0; j < n; ++j)
            for (idx i = j > ku ? j - ku : 0; i < m && i <= j + kl; ++i) {
                if (rd) s += double(1 + i + 3 * j) * double(real(A(i, j)));
                else A(i, j) = vtag<T>(i + j * m);
            }
        *out = s;
        return (int64_t)(nrows(A) * 1000 + ncols(A) + lowerband(A) * 7 + upperband(A) * 11);
    });
}
}  // namespace kit

using namespace kit;
CATALOGUE_BEGIN
REG(view_matrix, 0)
REG(view_nested, 0)
REG(view_vector, 0)
REG(view_reshape, 0)
REG(view_reshape_vec, 0)
REG(view_banded, 0)
CATALOGUE_END
