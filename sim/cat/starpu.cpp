// Task-parallel matrices (include/tlapack/starpu) over the simulated runtime.
// Every closure is a whole program: it registers tiled matrices, issues
// operations, destroys the matrices and compares the memory with the same
// program on plain matrices.  Return code: 0 equal, otherwise bits saying what differs.
#ifndef KITATTR
#define KITATTR sim::A_STARPU
#endif
#include <cfenv>
#include <tlapack/plugins/starpu.hpp>  // before the concepts are defined
#include "../opkit.hpp"
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/blas/trsm.hpp>
#include <tlapack/lapack/getrf_level0.hpp>
#include <tlapack/lapack/getrf_recursive.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/lahqr.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/starpu/starpu.hpp>
#include <memory>

namespace kit {
template <class X> auto re_(const X& x) { if constexpr (isC<X>::value) return std::real(x); else return tlapack::real(x); }
template <class X> auto cj_(const X& x) { if constexpr (isC<X>::value) return std::conj(x); else return tlapack::conj(x); }
namespace sp = tlapack::starpu;
using u32 = sp::idx_t;
using rng_t = std::pair<u32, u32>;
constexpr auto CM = tlapack::Layout::ColMajor;
template <class T> using LM = tlapack::LegacyMatrix<T, idx, CM>;

template <class T> T smallint(G& g, int k = 2)
{
    if constexpr (isC<T>::value) { auto x = Re<T>((int)g.r.below(2 * k + 1) - k), y = Re<T>((int)g.r.below(2 * k + 1) - k); return T(x, y); }
    else return T((int)g.r.below(2 * k + 1) - k);
}
template <class T> LM<T> ints(G& g, const char* nm, idx m, idx n, int k = 2)
{
    auto A = g.mat<T, CM>(nm, m, n, C_INOUT);
    for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) A(i, j) = smallint<T>(g, k);
    return A;
}
// an independent copy of a matrix
template <class T> struct Copy {
    std::vector<T> v;
    LM<T> A;
    explicit Copy(const LM<T>& B) : v(B.m * B.n), A(B.m, B.n, v.data(), B.m ? B.m : 1)
    {
        for (idx j = 0; j < B.n; ++j) for (idx i = 0; i < B.m; ++i) A(i, j) = B(i, j);
    }
    Copy(const Copy&) = delete;
};
template <class T> bool beq(const T& x, const T& y)
{
    if constexpr (isC<T>::value) return beq(std::real(x), std::real(y)) && beq(std::imag(x), std::imag(y));
    else return x == y || (x != x && y != y);
}
template <class T> bool same(const LM<T>& X, const LM<T>& Y, double tol = 0)
{
    for (idx j = 0; j < X.n; ++j)
        for (idx i = 0; i < X.m; ++i) {
            if (beq(X(i, j), Y(i, j))) continue;
            if (tol > 0 && std::abs(X(i, j) - Y(i, j)) <= tol * (1 + std::abs(Y(i, j)))) continue;
            return false;
        }
    return true;
}
// Programs whose plain run rounds somewhere have no unique result: the order
// of a sum is not part of the property.
struct Exact {
    Exact() { std::feclearexcept(FE_INEXACT | FE_OVERFLOW | FE_UNDERFLOW); }
    bool ok() const { return !std::fetestexcept(FE_INEXACT | FE_OVERFLOW | FE_UNDERFLOW); }
};
inline double mag(double x) { return x < 0 ? -x : x; }
template <class R> double mag(const std::complex<R>& x) { return std::max(mag((double)x.real()), mag((double)x.imag())); }
template <class T> auto sub(LM<T>& A, idx r0, idx r1, idx c0, idx c1) { return LM<T>(r1 - r0, c1 - c0, &A.ptr[r0 + c0 * A.ldim], A.ldim); }
template <class T> sp::Matrix<T> tiled(LM<T>& A, u32 mt, u32 nt) { return sp::Matrix<T>(A.ptr, (u32)A.m, (u32)A.n, (u32)A.ldim, mt, nt); }
struct Dim { u32 d, n, e, t; };   // offset, size, rest, tile
inline Dim dim3(G& g)
{
    Dim x;
    x.n = (u32)g.dim1();
    x.d = g.flip(0.5) ? 0 : (u32)g.r.below(4);
    x.e = g.flip(0.5) ? 0 : (u32)g.r.below(3);
    x.t = (u32)g.dimr(1, x.d + x.n);
    if (g.flip(0.5)) x.t = (u32)g.dimr(1, std::min<idx>(4, x.d + x.n));
    return x;
}
inline u32 tot(const Dim& x) { return x.d + x.n + x.e; }
inline rng_t rg(const Dim& x) { return rng_t{x.d, x.d + x.n}; }
}  // namespace kit

// ------------------------------------------------------------------ products
OPF(st_gemm)
{
    BEGIN
    Dim m = dim3(g), n = dim3(g), k = dim3(g);
    Op ta = g.op3(), tb = g.op3();
    bool na = ta == Op::NoTrans, nbt = tb == Op::NoTrans;
    auto A = na ? ints<T>(g, "A", tot(m), tot(k)) : ints<T>(g, "A", tot(k), tot(m));
    auto B = nbt ? ints<T>(g, "B", tot(k), tot(n)) : ints<T>(g, "B", tot(n), tot(k));
    auto C = ints<T>(g, "C", tot(m), tot(n));
    int al = g.pick({1, 1, -1, 2, 0}), be = g.pick({0, 1, -1, 2, 99, 99});   // 99: StrongZero
    bool twice = g.flip(0.2), cplx = g.flip(0.3), wait = g.flip(0.2);
    g.call([=]() mutable -> int64_t {
        Copy<T> rA(A), rB(B), rC(C);
        auto run = [&](auto& a, auto& b, auto& c) {
            const int reps = twice ? 2 : 1;
            for (int q = 0; q < reps; ++q) {
                if (be == 99) { if (cplx) tlapack::gemm(ta, tb, T(al), a, b, c); else tlapack::gemm(ta, tb, R(al), a, b, c); }
                else if (cplx) tlapack::gemm(ta, tb, T(al), a, b, R(be), c);
                else tlapack::gemm(ta, tb, R(al), a, b, T(be), c);
            }
        };
        auto ra = na ? sub(rA.A, m.d, m.d + m.n, k.d, k.d + k.n) : sub(rA.A, k.d, k.d + k.n, m.d, m.d + m.n);
        auto rb = nbt ? sub(rB.A, k.d, k.d + k.n, n.d, n.d + n.n) : sub(rB.A, n.d, n.d + n.n, k.d, k.d + k.n);
        auto rc = sub(rC.A, m.d, m.d + m.n, n.d, n.d + n.n);
        run(ra, rb, rc);
        {
            auto bA = na ? tiled(A, m.t, k.t) : tiled(A, k.t, m.t);
            auto bB = nbt ? tiled(B, k.t, n.t) : tiled(B, n.t, k.t);
            auto bC = tiled(C, m.t, n.t);
            auto a = na ? slice(bA, rg(m), rg(k)) : slice(bA, rg(k), rg(m));
            auto b = nbt ? slice(bB, rg(k), rg(n)) : slice(bB, rg(n), rg(k));
            auto c = slice(bC, rg(m), rg(n));
            run(a, b, c);
            if (wait) starpu_task_wait_for_all();
        }
        return (same(A, rA.A) && same(B, rB.A) ? 0 : 2) | (same(C, rC.A) ? 0 : 1);
    });
}
// blocks of one matrix: tiles shared between the operands
OPF(st_schur)
{
    BEGIN
    u32 n = (u32)g.dimr(2, std::max<idx>(2, (idx)g.size)), p = (u32)g.dimr(1, n - 1), t = (u32)g.dimr(1, n);
    auto A = ints<T>(g, "A", n, n, 1);
    int al = g.pick({1, -1, 2}), be = g.pick({1, 1, -1, 0, 99}), which = (int)g.r.below(4);
    bool up = g.flip();
    g.call([=]() mutable -> int64_t {
        Copy<T> rA(A);
        auto run = [&](auto&& cut) {
            auto c = cut(p, n, p, n);
            auto a = cut(p, n, 0, p), b = cut(0, p, p, n);
            auto d = cut(0, p, 0, p);
            switch (which) {
                case 0: if (be == 99) tlapack::gemm(Op::NoTrans, Op::NoTrans, R(al), a, b, c); else tlapack::gemm(Op::NoTrans, Op::NoTrans, R(al), a, b, R(be), c); break;
                case 1: if (be == 99) tlapack::gemm(Op::NoTrans, Op::ConjTrans, R(al), a, a, c); else tlapack::gemm(Op::NoTrans, Op::ConjTrans, R(al), a, a, R(be), c); break;
                case 2: if (be == 99) tlapack::herk(up ? Uplo::Upper : Uplo::Lower, Op::NoTrans, R(al), a, c); else tlapack::herk(up ? Uplo::Upper : Uplo::Lower, Op::NoTrans, R(al), a, R(be), c); break;
                default: if (be == 99) tlapack::gemm(Op::Trans, Op::NoTrans, R(al), d, b, b); else { tlapack::trsm(Side::Left, up ? Uplo::Upper : Uplo::Lower, Op::NoTrans, Diag::Unit, R(1), d, b); tlapack::gemm(Op::NoTrans, Op::NoTrans, R(-1), a, b, R(1), c); }
            }
        };
        if (which == 3 && be == 99) be = 1;
        Exact ex;
        run([&](u32 r0, u32 r1, u32 c0, u32 c1) { return sub(rA.A, r0, r1, c0, c1); });
        const bool unique = ex.ok();
        {
            auto M = tiled(A, t, t);
            run([&](u32 r0, u32 r1, u32 c0, u32 c1) { return slice(M, rng_t{r0, r1}, rng_t{c0, c1}); });
        }
        return !unique || same(A, rA.A) ? 0 : 1;
    });
}
OPF(st_herk)
{
    BEGIN
    Dim n = dim3(g), k = dim3(g);
    Op tr = g.flip() ? Op::NoTrans : Op::ConjTrans;
    Uplo up = g.pick({Uplo::Upper, Uplo::Lower, Uplo::General});
    auto A = tr == Op::NoTrans ? ints<T>(g, "A", tot(n), tot(k)) : ints<T>(g, "A", tot(k), tot(n));
    auto C = ints<T>(g, "C", tot(n), tot(n));
    { auto c = sub(C, n.d, n.d + n.n, n.d, n.d + n.n); g.herm(c); }
    int al = g.pick({1, -1, 2, 0}), be = g.pick({0, 1, -1, 2, 99, 99});
    g.call([=]() mutable -> int64_t {
        Copy<T> rA(A), rC(C);
        auto run = [&](auto& a, auto& c) {
            if (be == 99) tlapack::herk(up, tr, R(al), a, c);
            else tlapack::herk(up, tr, R(al), a, R(be), c);
        };
        auto ra = tr == Op::NoTrans ? sub(rA.A, n.d, n.d + n.n, k.d, k.d + k.n) : sub(rA.A, k.d, k.d + k.n, n.d, n.d + n.n);
        auto rc = sub(rC.A, n.d, n.d + n.n, n.d, n.d + n.n);
        run(ra, rc);
        {
            auto bA = tr == Op::NoTrans ? tiled(A, n.t, k.t) : tiled(A, k.t, n.t);
            auto bC = tiled(C, n.t, n.t);
            auto a = tr == Op::NoTrans ? slice(bA, rg(n), rg(k)) : slice(bA, rg(k), rg(n));
            auto c = slice(bC, rg(n), rg(n));
            run(a, c);
        }
        return (same(A, rA.A) ? 0 : 2) | (same(C, rC.A) ? 0 : 1);
    });
}
OPF(st_trsm)
{
    BEGIN
    Dim m = dim3(g), n = dim3(g);
    Side sd = g.side();
    Dim a = sd == Side::Left ? m : n;
    if (g.flip(0.7)) a.e = (u32)g.r.below(3);
    Uplo up = g.uplo();
    Op tr = g.op3();
    Diag dg = g.diag_();
    auto A = ints<T>(g, "A", tot(a), tot(a), 1);
    // few off-diagonal elements in a large triangle: the solution stays exact
    if (a.n > 10) for (u32 j = 0; j < tot(a); ++j) for (u32 i = 0; i < tot(a); ++i) if (i != j && g.flip(1 - 8. / a.n)) A(i, j) = T(0);
    for (u32 i = 0; i < tot(a); ++i) {
        if constexpr (CX) A(i, i) = g.pick({T(1), T(-1), T(R(0), R(1)), T(R(0), R(-1))});
        else A(i, i) = g.pick({T(1), T(-1)});
    }
    auto B = ints<T>(g, "B", tot(m), tot(n));
    int al = g.pick({1, 1, -1, 2, -2});
    bool cplx = g.flip();
    g.call([=]() mutable -> int64_t {
        Copy<T> rA(A), rB(B);
        auto ra = sub(rA.A, a.d, a.d + a.n, a.d, a.d + a.n), rb = sub(rB.A, m.d, m.d + m.n, n.d, n.d + n.n);
        Exact ex;
        tlapack::trsm(sd, up, tr, dg, T(al), ra, rb);
        const bool unique = ex.ok();
        {
            auto bA = tiled(A, a.t, a.t);
            auto bB = tiled(B, m.t, n.t);
            auto sa = slice(bA, rg(a), rg(a));
            auto sb = slice(bB, rg(m), rg(n));
            if (cplx) tlapack::trsm(sd, up, tr, dg, T(al), sa, sb);
            else tlapack::trsm(sd, up, tr, dg, R(al), sa, sb);
        }
        return (same(A, rA.A) ? 0 : 2) | (!unique || same(B, rB.A) ? 0 : 1);
    });
}
// ------------------------------------------------------------- factorizations
OPF(st_potrf)
{
    BEGIN
    Dim n = dim3(g);
    if (n.n > 10) n.n = 10, n.t = std::min(n.t, n.d + n.n);
    Uplo up = g.uplo();
    auto A = ints<T>(g, "A", tot(n), tot(n), 1);
    { auto c = sub(A, n.d, n.d + n.n, n.d, n.d + n.n); g.spd(c); for (u32 i = 0; i < n.n; ++i) c(i, i) *= R(2); }
    int var = (int)g.r.below(4);
    u32 nb = (u32)g.nb();
    bool solve = g.flip(0.3), look = g.flip(0.2);
    auto B = ints<T>(g, "B", tot(n), 3, 2);
    g.call([=]() mutable -> int64_t {
        Copy<T> rA(A), rB(B);
        auto run = [&](auto& a, auto& b) {
            PotrfOpts o;
            o.nb = nb;
            o.variant = var == 0 ? PotrfVariant::Blocked : var == 1 ? PotrfVariant::Recursive : var == 2 ? PotrfVariant::Level2 : PotrfVariant::RightLooking;
            int info = tlapack::potrf(up, a, o);
            if (solve) tlapack::trsm(Side::Left, up, up == Uplo::Lower ? Op::NoTrans : Op::ConjTrans, Diag::NonUnit, R(1), a, b);
            return info;
        };
        auto ra = sub(rA.A, n.d, n.d + n.n, n.d, n.d + n.n), rb = sub(rB.A, n.d, n.d + n.n, 0, 3);
        int i0 = run(ra, rb), i1;
        bool ok = true;
        {
            auto bA = tiled(A, n.t, n.t);
            auto bB = tiled(B, n.t, 2);
            auto a = slice(bA, rg(n), rg(n));
            auto b = slice(bB, rg(n), rng_t{0, 3});
            i1 = run(a, b);
            if (look) { T x = a(0, 0); ok = std::abs(x - ra(0, 0)) <= R(1e-3); }
        }
        R tol = 200 * std::numeric_limits<R>::epsilon();
        return (i0 == i1 && ok ? 0 : 4) | (same(A, rA.A, tol) ? 0 : 1) | (same(B, rB.A, 50 * tol) ? 0 : 2);
    });
}
#ifdef CREAL  // they compare an entry with a real number
OPF(st_getrf)
{
    BEGIN
    u32 m = (u32)g.dimr(1, 5), n = (u32)g.dimr(1, 5), k = std::min(m, n);
    u32 mt = (u32)g.dimr(1, m), nt = (u32)g.dimr(1, n), kt = (u32)g.dimr(1, k);
    bool rec = g.flip();
    if (rec) mt = m, nt = n;
    auto A = g.mat<T, CM>("A", m, n, C_INOUT);
    auto p = g.vec<u32>("p", k, C_INOUT);
    g.call([=]() mutable -> int64_t {
        Copy<T> rA(A);
        std::vector<u32> rp(k);
        for (u32 i = 0; i < k; ++i) rp[i] = p[i];
        int i0 = rec ? tlapack::getrf_recursive(rA.A, rp) : tlapack::getrf_level0(rA.A, rp), i1;
        {
            auto a = tiled(A, mt, nt);
            sp::Matrix<u32> q(&p[0], k, 1, kt, 1);
            i1 = rec ? tlapack::getrf_recursive(a, q) : tlapack::getrf_level0(a, q);
        }
        bool pe = true;
        for (u32 i = 0; i < k; ++i) if (p[i] != rp[i]) pe = false;
        return (i0 == i1 ? 0 : 4) | (pe ? 0 : 2) | (same(A, rA.A, 100 * std::numeric_limits<R>::epsilon()) ? 0 : 1);
    });
}
#endif
OPF(st_lahqr)
{
    BEGIN
    using CT_ = std::complex<R>;
    if (g.vmode != 3) g.vmode = 0;   // extreme data may need thousands of element tasks
    u32 n = (u32)g.dimr(1, 4), t = (u32)g.dimr(1, n);
    auto H = g.mat<T, CM>("H", n, n, C_INOUT), Z = g.mat<T, CM>("Z", n, n, C_INOUT);
    for (u32 j = 0; j < n; ++j) for (u32 i = 0; i < n; ++i) { if (i > j + 1) H(i, j) = T(0); Z(i, j) = T(R(i == j)); }
    auto w = g.vec<CT_>("w", n, C_INOUT);
    bool wt = g.flip(), wz = g.flip();
    g.call([=]() mutable -> int64_t {
        Copy<T> rH(H), rZ(Z);
        std::vector<CT_> rw(n);
        for (u32 i = 0; i < n; ++i) rw[i] = w[i];
        // extreme data: no convergence, reported by exception in both worlds
        auto guarded = [](auto&& f) { try { return (int)f(); } catch (const std::runtime_error&) { return -77; } };
        int i0 = guarded([&] { return tlapack::lahqr(wt, wz, (idx)0, (idx)n, rH.A, rw, rZ.A); }), i1;
        {
            auto h = tiled(H, t, t), z = tiled(Z, t, t);
            sp::Matrix<CT_> s(&w[0], n, 1, t, 1);
            i1 = guarded([&] { return tlapack::lahqr(wt, wz, 0, n, h, s, z); });
        }
        R tol = 2000 * std::numeric_limits<R>::epsilon();
        bool we = true;
        if (i0 == 0) for (u32 i = 0; i < n; ++i) {
            CT_ x = w[i], y = rw[i];
            auto eq = [](R a, R b) { return a == b || (std::isnan(a) && std::isnan(b)); };
            if (!(eq(x.real(), y.real()) && eq(x.imag(), y.imag())) && !(std::abs(x - y) <= tol * (1 + std::abs(y)))) we = false;
        }
        return (i0 == i1 ? 0 : 4) | (we ? 0 : 2) | (!wt || same(H, rH.A, tol) ? 0 : 1) | (same(Z, rZ.A, tol) ? 0 : 8);
    });
}
// ---------------------------------------------------------- element programs
namespace kit {
struct Stmt { int kind; int a, b, c; u32 i, j, k, l; int v; };
constexpr int NST = 24;
template <class T> struct Prog { int n; u32 dim, tile; Stmt s[NST]; };
template <class T> Prog<T> makeprog(G& g, int nmat, bool heavy)
{
    Prog<T> p;
    p.dim = (u32)g.dimr(1, 5);
    p.tile = (u32)g.dimr(1, p.dim);
    p.n = (int)g.dimr(1, heavy ? NST : NST / 2);
    bool local = g.flip(0.5);   // few elements, hence many dependences
    for (int q = 0; q < p.n; ++q) {
        Stmt& s = p.s[q];
        s.kind = (int)g.r.below(22);
        s.a = (int)g.r.below(nmat); s.b = (int)g.r.below(nmat); s.c = (int)g.r.below(nmat);
        u32 d = local ? std::min<u32>(2, p.dim) : p.dim;
        s.i = (u32)g.r.below(d); s.j = (u32)g.r.below(d); s.k = (u32)g.r.below(d); s.l = (u32)g.r.below(d);
        s.v = (int)g.r.below(5) - 2;
    }
    return p;
}
// one program text, executed on plain and on runtime-managed matrices
template <class T, class M, class Cut, class Copy_> void runprog(const Prog<T>& p, M** m, Cut&& cut, Copy_&& dup, T* out)
{
    using R = Re<T>;
    int no = 0;
    for (int q = 0; q < p.n; ++q) {
        const Stmt& s = p.s[q];
        M &A = *m[s.a], &B = *m[s.b], &C = *m[s.c];
        T v;
        if constexpr (isC<T>::value) v = T(R(s.v), R(s.v == 1 ? 2 : -s.v)); else v = T(s.v);
        const M& Bc = B;
        const M& Cc = C;
        switch (s.kind) {
            case 0: A(s.i, s.j) = v; break;
            case 1: A(s.i, s.j) += v; break;
            case 2: A(s.i, s.j) -= v; break;
            case 3: A(s.i, s.j) *= T(R(s.v > 0 ? 2 : -1)); break;
            case 4: A(s.i, s.j) /= T(R(s.v > 0 ? 2 : -4)); break;
            case 5: A(s.i, s.j) = B(s.k, s.l); break;
            case 6: A(s.i, s.j) += B(s.k, s.l); break;
            case 7: A(s.i, s.j) -= B(s.k, s.l); break;
            case 8: A(s.i, s.j) = T(Bc(s.k, s.l)) * R(0.5) + T(Cc(s.l, s.i)); break;
            case 9: out[no++ % 8] += T(Bc(s.i, s.j)); break;
            case 10: if (mag(T(Bc(s.k, s.l))) > 1) A(s.i, s.j) -= v; else A(s.i, s.j) = v; break;
            case 11:
            case 12:
                if (&A != &B && &A != &C) tlapack::gemm(s.i & 1 ? Op::NoTrans : Op::ConjTrans, s.j & 1 ? Op::NoTrans : Op::Trans, R(0.5), B, C, R(s.v == 0 ? 0 : s.v > 0 ? 0.5 : -1), A);
                else A(s.i, s.j) = v;
                break;
            case 13: {
                u32 r0 = std::min(s.i, s.k), r1 = std::max(s.i, s.k) + 1, c0 = std::min(s.j, s.l), c1 = std::max(s.j, s.l) + 1;
                auto S = cut(A, r0, r1, c0, c1);
                S(r1 - r0 - 1, 0) -= v;
                S(0, c1 - c0 - 1) = S(r1 - r0 - 1, 0);
                out[no++ % 8] += T(S(0, c1 - c0 - 1));
                break;
            }
            case 14:
                if (s.i != s.k) { auto x = cut(A, s.i, s.i + 1, 0, p.dim), y = cut(A, s.k, s.k + 1, 0, p.dim); for (u32 z = 0; z < p.dim; ++z) { T t = T(x(0, z)); x(0, z) = y(0, z); y(0, z) = t; } }
                break;
            case 15: {
                auto D = dup(A);
                (*D)(s.i, s.j) += v;
                A(s.k, s.l) += (*D)(s.i, s.j);
                break;
            }
            case 16: A(s.i, s.j) *= B(s.k, s.l); A(s.i, s.j) = T(R(0.25)) * v; break;
            case 17: A(s.i, s.j) = T(Bc(s.k, s.l)); break;
            case 18: { auto x = cut(A, 0, p.dim, s.j, s.j + 1); for (u32 z = 0; z < p.dim; ++z) x(z, 0) *= R(-1); break; }
            case 19: out[no++ % 8] -= T(R(re_(Bc(s.i, s.j)))) + T(R(2)) * cj_(Cc(s.k, s.l)); break;
            case 20: {
                if (p.dim < 2 || &A == &B) break;
                u32 h = 1 + s.i % (p.dim - 1);
                auto c = cut(A, h, p.dim, h, p.dim);
                auto x = cut(A, h, p.dim, 0, h), y = cut(A, 0, h, h, p.dim);
                tlapack::gemm(Op::NoTrans, Op::NoTrans, R(-0.5), x, y, R(1), c);
                break;
            }
            default: {
                A(s.i, s.j) = v; A(s.i, s.j) += B(s.k, s.l); B(s.k, s.l) = v; out[no++ % 8] += T(Bc(s.k, s.l)); }
        }
    }
}
}  // namespace kit
OPF(st_elem)
{
    BEGIN
    const int nm = (int)g.dimr(1, 3);
    auto p = makeprog<T>(g, nm, true);
    LM<T> A[3] = {LM<T>(0, 0, nullptr, 1), LM<T>(0, 0, nullptr, 1), LM<T>(0, 0, nullptr, 1)};
    for (int q = 0; q < nm; ++q) A[q] = ints<T>(g, q == 0 ? "A" : q == 1 ? "B" : "C", p.dim, p.dim, 2);
    auto out = g.vec<T>("reads", 8, C_OUT);
    u32 tl[3] = {p.tile, p.tile, p.tile};
    g.call([=]() mutable -> int64_t {
        std::unique_ptr<Copy<T>> r[3];
        T ro[8] = {}, o[8] = {};
        LM<T>* rm[3] = {};
        for (int q = 0; q < nm; ++q) { r[q] = std::make_unique<Copy<T>>(A[q]); rm[q] = &r[q]->A; }
        auto keep = [](auto& X) { return &X; };
        Exact ex;
        runprog<T>(p, rm, [](LM<T>& X, u32 a, u32 b, u32 c, u32 d) { return sub(X, a, b, c, d); }, keep, ro);
        const bool exact = ex.ok();
        {
            std::unique_ptr<sp::Matrix<T>> m[3];
            sp::Matrix<T>* sm[3] = {};
            for (int q = 0; q < nm; ++q) { m[q] = std::make_unique<sp::Matrix<T>>(A[q].ptr, p.dim, p.dim, (u32)A[q].ldim, tl[q], tl[q]); sm[q] = m[q].get(); }
            runprog<T>(p, sm, [](sp::Matrix<T>& X, u32 a, u32 b, u32 c, u32 d) { return slice(X, rng_t{a, b}, rng_t{c, d}); }, [](sp::Matrix<T>& X) { return std::make_unique<sp::Matrix<T>>(X); }, o);
        }
        int64_t code = 0;
        for (int q = 0; q < nm; ++q) if (exact && !same(A[q], *rm[q])) code |= 1;
        for (int q = 0; q < 8; ++q) { out[q] = o[q]; if (exact && !beq(o[q], ro[q])) code |= 2; }
        return code;
    });
}
#ifdef CCPLX
// real and complex matrices in one program
OPF(st_mixed)
{
    BEGIN
    u32 n = (u32)g.dimr(1, 4), t = (u32)g.dimr(1, n), tr = (u32)g.dimr(1, n);
    auto A = ints<T>(g, "A", n, n);
    auto B = ints<R>(g, "B", n, n);
    int ns = (int)g.dimr(1, 10);
    Stmt s[10];
    for (int q = 0; q < ns; ++q) s[q] = Stmt{(int)g.r.below(9), 0, 0, 0, (u32)g.r.below(n), (u32)g.r.below(n), (u32)g.r.below(n), (u32)g.r.below(n), (int)g.r.below(5) - 2};
    g.call([=]() mutable -> int64_t {
        Copy<T> rA(A);
        Copy<R> rB(B);
        auto run = [&](auto& a, auto& b) {
            const auto& ac = a;
            const auto& bc = b;
            for (int q = 0; q < ns; ++q) {
                const Stmt& x = s[q];
                switch (x.kind) {
                    case 0: a(x.i, x.j) = b(x.k, x.l); break;
                    case 1: a(x.i, x.j) += b(x.k, x.l); break;
                    case 2: a(x.i, x.j) -= b(x.k, x.l); break;
                    case 3: a(x.i, x.j) *= b(x.k, x.l); a(x.i, x.j) *= R(0.25); break;
                    case 4: b(x.i, x.j) += R(x.v); break;
                    case 5: b(x.i, x.j) = std::real(T(ac(x.k, x.l))); break;
                    case 6: a(x.i, x.j) = T(R(x.v), bc(x.k, x.l)); break;
                    case 7: a(x.i, x.j) += R(x.v); break;
                    default: b(x.i, x.j) = b(x.k, x.l); a(x.i, x.j) -= T(R(0), R(x.v));
                }
            }
        };
        Exact ex;
        run(rA.A, rB.A);
        const bool exact = ex.ok();
        {
            auto a = tiled(A, t, t);
            auto b = tiled(B, tr, tr);
            run(a, b);
        }
        return !exact ? 0 : (same(A, rA.A) ? 0 : 1) | (same(B, rB.A) ? 0 : 2);
    });
}
#endif
// ------------------------------------------------- lifetimes of matrix objects
OPF(st_life)
{
    BEGIN
    u32 m = (u32)g.dimr(1, 6), n = (u32)g.dimr(1, 6), mt = (u32)g.dimr(1, m), nt = (u32)g.dimr(1, n);
    auto A = ints<T>(g, "A", m, n);
    auto B = ints<T>(g, "B", m, n);
    uint64_t seq = g.r.next();
    u32 r0 = (u32)g.r.below(m), c0 = (u32)g.r.below(n);
    g.call([=]() mutable -> int64_t {
        Copy<T> rA(A), rB(B);
        std::vector<std::unique_ptr<sp::Matrix<T>>> h;
        h.push_back(std::make_unique<sp::Matrix<T>>(A.ptr, m, n, (u32)A.ldim, mt, nt));
        auto other = std::make_unique<sp::Matrix<T>>(B.ptr, m, n, (u32)B.ldim, mt, nt);
        sim::Rng r(seq);
        int steps = 2 + (int)r.below(8);
        for (int q = 0; q < steps && h.size(); ++q) {
            size_t x = r.below(h.size());
            auto& X = *h[x];
            const u32 xm = X.nrows(), xn = X.ncols();
            switch (r.below(6)) {
                case 0: h.push_back(std::make_unique<sp::Matrix<T>>(X)); break;
                case 1: { auto s = slice(X, rng_t{0, xm}, rng_t{0, xn}); h.push_back(std::make_unique<sp::Matrix<T>>(s)); break; }
                case 2: if (h.size() > 1) h.erase(h.begin() + (long)x); break;
                case 3: {
                    u32 i = (u32)r.below(xm), j = (u32)r.below(xn);
                    X(i, j) += T(1);
                    rA.A(i, j) += T(1);
                    break;
                }
                case 4: {
                    u32 i = (u32)r.below(xm), j = (u32)r.below(xn);
                    if (!other) break;
                    X(i, j) = (*other)(i, j);
                    rA.A(i, j) = rB.A(i, j);
                    (*other)(i, j) -= T(2);
                    rB.A(i, j) -= T(2);
                    if (r.chance(0.4)) other.reset();
                    break;
                }
                default: {
                    auto e = X.get_tiles(0, 0, X.get_nx(), X.get_ny());
                    auto c = X.get_const_tiles(X.get_nx() - 1, X.get_ny() - 1, 1, 1);
                    const T v = c(c.nrows() - 1, c.ncols() - 1);
                    e(r0, c0) += v;
                    rA.A(r0, c0) += rA.A(m - 1, n - 1);
                }
            }
        }
        while (h.size()) h.erase(h.begin() + (long)r.below(h.size()));
        other.reset();
        return (same(A, rA.A) ? 0 : 1) | (same(B, rB.A) ? 0 : 2);
    });
}
OPF(st_create)
{
    BEGIN
    u32 m = (u32)g.dimr(1, 5), n = (u32)g.dimr(1, 5), mt = (u32)g.dimr(1, m), nt = (u32)g.dimr(1, n);
    auto A = ints<T>(g, "A", m, n);
    bool again = g.flip();
    int k = (int)g.r.below(3);
    g.call([=]() mutable -> int64_t {
        Copy<T> rA(A);
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) rA.A(i, j) += rA.A(i, j) + T(R(k));
        if (again) for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) rA.A(i, j) += R(-1);
        {
            tlapack::Create<sp::Matrix<T>> new_matrix;
            std::vector<T> v;
            auto W = new_matrix(v, m, n);
            auto M = tiled(A, mt, nt);
            tlapack::lacpy(GENERAL, M, W);
            for (u32 j = 0; j < n; ++j) for (u32 i = 0; i < m; ++i) { M(i, j) += W(i, j); M(i, j) += T(R(k)); }
        }
        if (again) {   // the same memory under another tiling
            auto M = tiled(A, m, n);
            for (u32 j = 0; j < n; ++j) for (u32 i = 0; i < m; ++i) M(i, j) += T(R(-1));
        }
        return same(A, rA.A) ? 0 : 1;
    });
}
// misaligned tilings must be refused
OPF(st_refuse)
{
    BEGIN
    u32 n = 2 * (u32)g.dimr(2, 5);
    int which = (int)g.r.below(5);
    auto A = ints<T>(g, "A", n, n), B = ints<T>(g, "B", n, n), C = ints<T>(g, "C", n, n);
    g.flags(F_REJECT | F_NONAN);
    g.call([=]() mutable -> int64_t {
        u32 t = n / 2, u = t + 1;   // as many tiles, other boundaries
        if (which == 0) { auto a = tiled(A, n, t), b = tiled(B, u, n), c = tiled(C, n, n); tlapack::gemm(Op::NoTrans, Op::NoTrans, R(1), a, b, R(1), c); }
        else if (which == 1) { auto a = tiled(A, t, n), b = tiled(B, n, n), c = tiled(C, u, n); tlapack::gemm(Op::NoTrans, Op::NoTrans, R(1), a, b, R(1), c); }
        else if (which == 2) { auto a = tiled(A, t, n), c = tiled(C, n, t); tlapack::herk(Uplo::Lower, Op::NoTrans, R(1), a, R(1), c); }
        else if (which == 3) { auto a = tiled(A, t, t), b = tiled(B, u, n); tlapack::trsm(Side::Left, Uplo::Lower, Op::NoTrans, Diag::NonUnit, R(1), a, b); }
        else { auto a = tiled(A, t, t), b = tiled(B, t, t), c = tiled(C, t, t); auto d = slice(c, rng_t{0, n}, rng_t{0, n - 1}); tlapack::gemm(Op::ConjTrans, Op::NoTrans, R(1), a, b, R(1), d); }
        return 0;
    });
}
using namespace sim;
CATALOGUE_BEGIN
REG(st_gemm, 0)
REG(st_schur, 0)
REG(st_herk, 0)
REG(st_trsm, 0)
REG(st_potrf, 0)
#ifdef CREAL
REG(st_getrf, 0)
#endif
REG(st_lahqr, 0)
REG(st_elem, 0)
#ifdef CCPLX
REG(st_mixed, 0)
#endif
REG(st_life, 0)
REG(st_create, 0)
REG(st_refuse, A_REJECT)
CATALOGUE_END
