// BLAS, generic (C++) interface.  CT/CL/CSUF given on the command line.
#include "../opkit.hpp"
#include <tlapack/blas/asum.hpp>
#include <tlapack/blas/axpy.hpp>
#include <tlapack/blas/copy.hpp>
#include <tlapack/blas/dot.hpp>
#include <tlapack/blas/dotu.hpp>
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/gemv.hpp>
#include <tlapack/blas/ger.hpp>
#include <tlapack/blas/geru.hpp>
#include <tlapack/blas/hemm.hpp>
#include <tlapack/blas/hemv.hpp>
#include <tlapack/blas/her.hpp>
#include <tlapack/blas/her2.hpp>
#include <tlapack/blas/her2k.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/iamax.hpp>
#include <tlapack/blas/lartg.hpp>
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/rotm.hpp>
#include <tlapack/blas/rotmg.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/blas/symm.hpp>
#include <tlapack/blas/symv.hpp>
#include <tlapack/blas/syr.hpp>
#include <tlapack/blas/syr2.hpp>
#include <tlapack/blas/syr2k.hpp>
#include <tlapack/blas/syrk.hpp>
#include <tlapack/blas/trmm.hpp>
#include <tlapack/blas/trmv.hpp>
#include <tlapack/blas/trsm.hpp>
#include <tlapack/blas/trsv.hpp>

// ------------------------------------------------------------------ level 1
OPF(asum)
{
    BEGIN
    auto x = g.svec<T>("x", g.dim(), C_IN);
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=, &ret] { ret = tlapack::asum(x); });
}
OPF(nrm2)
{
    BEGIN
    auto x = g.svec<T>("x", g.dim(), C_IN);
    auto& ret = g.cell<R>("ret", C_OUT);
    if (g.flip(0.3)) for (idx i = 0; i < x.n; ++i) const_cast<T&>(x[i]) *= R(g.flip() ? 1e30 : 1e-30);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=, &ret] { ret = tlapack::nrm2(x); });
}
OPF(axpy)
{
    BEGIN
    idx n = g.dim();
    auto alpha = g.scalar<T>();
    auto x = g.svec<T>("x", n + g.badd(1), C_IN);
    auto y = g.svec<T>("y", n, C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=]() mutable { tlapack::axpy(alpha, x, y); });
}
OPF(copy)
{
    BEGIN
    idx n = g.dim();
    auto x = g.svec<T>("x", n + g.badd(1), C_IN);
    auto y = g.svec<T>("y", n, C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=]() mutable { tlapack::copy(x, y); });
}
OPF(swap)
{
    BEGIN
    idx n = g.dim();
    auto x = g.svec<T>("x", n + g.badd(1), C_INOUT);
    auto y = g.svec<T>("y", n, C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=]() mutable { tlapack::swap(x, y); });
}
OPF(scal)
{
    BEGIN
    auto alpha = g.scalar<T>();
    auto x = g.svec<T>("x", g.dim(), C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=]() mutable { tlapack::scal(alpha, x); });
}
OPF(dot)
{
    BEGIN
    idx n = g.dim();
    auto x = g.svec<T>("x", n + g.badd(1), C_IN);
    auto y = g.svec<T>("y", n, C_IN);
    auto& ret = g.cell<T>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=, &ret] { ret = tlapack::dot(x, y); });
}
OPF(dotu)
{
    BEGIN
    idx n = g.dim();
    auto x = g.svec<T>("x", n + g.badd(1), C_IN);
    auto y = g.svec<T>("y", n, C_IN);
    auto& ret = g.cell<T>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=, &ret] { ret = tlapack::dotu(x, y); });
}
OPF(iamax)
{
    BEGIN
    idx n = g.dim1();
    auto x = g.svec<T>("x", n, C_IN);
    int special = (int)g.r.below(4);
    if (special == 3) for (idx i = 0; i < n; ++i) if (g.flip(0.2)) const_cast<T&>(x[i]) = g.flip() ? T(std::numeric_limits<R>::infinity()) : CX ? T(std::numeric_limits<R>::max()) : T(1);
    if constexpr (CX) if (special == 2) for (idx i = 0; i < n; ++i) if (g.flip(0.4)) const_cast<T&>(x[i]) = T(std::numeric_limits<R>::max() * R(0.5 + 0.5 * g.r.unit()), std::numeric_limits<R>::max() * R(0.5 + 0.5 * g.r.unit()));
    if (special == 1 && n > 2) const_cast<T&>(x[n / 2]) = x[n - 1];
    bool nc = g.flip(0.3);
    auto& ret = g.cell<size_t>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(0);
    if (nc) g.call([=, &ret] { ret = tlapack::iamax(x, IamaxOpts<R (*)(const T&)>([](const T& a) -> R { return tlapack::abs1(a); }, EcOpts(NO_ERROR_CHECK))); (void)x[ret]; });
    else g.call([=, &ret] { ret = tlapack::iamax(x); (void)x[ret]; });
}
// the search answers through a floating output: NaN when it found a NaN (or infinity), otherwise a checksum
template <class T, bool INF, class V, class RT> static void iamaxcheck(V x, RT& ret, bool nc)
{
    using namespace kit;
    using R = Re<T>;
    auto isn = [](const T& v) { return !(v == v); };
    auto isi = [](const T& v) { R a = tlapack::abs1(v * R(0.25)); return !(a - a == R(0)) ; };
    auto f = [](const T& a) -> R { return tlapack::abs1(a); };
    R s(0);
    if constexpr (INF) {
        R inf = std::numeric_limits<R>::infinity();
        for (idx i = 0; i < x.n; ++i) {
            T& v = const_cast<T&>(x[i]);
            if constexpr (isC<T>::value) v = T(v.real() != v.real() ? -inf : v.real(), v.imag() != v.imag() ? inf : v.imag());
            else if (isn(v)) v = -inf;
        }
    }
    idx k = nc ? tlapack::iamax(x, tlapack::IamaxOpts<R (*)(const T&)>(f, tlapack::EcOpts(tlapack::NO_ERROR_CHECK))) : tlapack::iamax(x);
    for (idx i = 0; i < x.n; ++i) {
        T v = x[i];
        R q = tlapack::abs1(v * R(0.25));
        if (q - q == R(0)) s += q * R(0.001 * (1 + i));
    }
    bool hit = k < x.n && (INF ? isi(x[k]) : isn(x[k]));
    if constexpr (INF) for (idx i = 0; i < x.n; ++i) { T& v = const_cast<T&>(x[i]); if (isi(v)) v = T(0); }
    ret = hit ? std::numeric_limits<R>::quiet_NaN() : s;
}
OPF(iamax_nan)
{
    BEGIN
    idx n = g.dim1();
    auto x = g.svec<T>("x", n, C_IN);
    if (g.flip(0.3)) { T& v = const_cast<T&>(x[g.r.below(n)]); v = T(std::numeric_limits<R>::infinity()); }
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=, &ret] { iamaxcheck<T, false>(x, ret, false); });
}
OPF(iamax_inf)
{
    BEGIN
    idx n = g.dim1();
    auto x = g.svec<T>("x", n, C_INOUT);
    bool nc = g.flip();
    auto& ret = g.cell<R>("ret", C_OUT);
    g.flags(F_NOALLOC);
    g.call([=, &ret] { iamaxcheck<T, true>(x, ret, nc); });
}
OPF(rot)
{
    BEGIN
    idx n = g.dim();
    R c = R(0.6);
    T s;
    if constexpr (CX) s = T(R(0.48), R(0.64));
    else s = T(0.8);
    auto x = g.svec<T>("x", n + g.badd(1), C_INOUT);
    auto y = g.svec<T>("y", n, C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    bool realS = g.flip();
    if (realS) { R rs = R(0.8); g.call([=]() mutable { tlapack::rot(x, y, c, rs); }); }
    else g.call([=]() mutable { tlapack::rot(x, y, c, s); });
}
OPF(rotg)
{
    BEGIN
    g.flags(F_NOALLOC);
    if constexpr (CX) {
        auto& a = g.cell<T>("a", C_INOUT);
        auto& b = g.cell<T>("b", C_IN);
        auto& c = g.cell<R>("c", C_OUT);
        auto& s = g.cell<T>("s", C_OUT);
        double u = g.r.unit();
        if (u < 0.1) a = T(0); else if (u < 0.2) const_cast<T&>(b) = T(0); else if (u < 0.3) a *= R(1e-30); else if (u < 0.4) const_cast<T&>(b) *= R(1e30);
        g.call([&a, &b, &c, &s] { tlapack::rotg(a, (const T&)b, c, s); });
    }
    else {
        auto& a = g.cell<T>("a", C_INOUT);
        auto& b = g.cell<T>("b", C_INOUT);
        auto& c = g.cell<T>("c", C_OUT);
        auto& s = g.cell<T>("s", C_OUT);
        double u = g.r.unit();
        if (u < 0.1) a = T(0); else if (u < 0.2) b = T(0); else if (u < 0.3) a *= R(1e-30); else if (u < 0.4) b *= R(1e30);
        g.call([&a, &b, &c, &s] { tlapack::rotg(a, b, c, s); });
    }
}
OPF(lartg)
{
    BEGIN
    g.flags(F_NOALLOC);
    auto& a = g.cell<T>("a", C_IN);
    auto& b = g.cell<T>("b", C_IN);
    auto& c = g.cell<R>("c", C_OUT);
    auto& s = g.cell<T>("s", C_OUT);
    auto& r = g.cell<T>("r", C_OUT);
    double u = g.r.unit();
    if (u < 0.1) a = T(0); else if (u < 0.2) b = T(0); else if (u < 0.3) a *= R(1e-30); else if (u < 0.4) b *= R(1e30);
    g.call([&a, &b, &c, &s, &r] { tlapack::lartg((const T&)a, (const T&)b, c, s, r); });
}
OPF(rotm)
{
    BEGIN
    if constexpr (CX) { (void)g; }
    else {
        idx n = g.dim();
        auto h = g.vec<T>("h", 4, C_IN);
        int flag = -2 + (int)g.r.below(4);
        if (flag == -2) for (int i = 0; i < 4; ++i) g.setcv(h, i, C_NOREF);
        if (flag == 0) { g.setcv(h, 0, C_NOREF); g.setcv(h, 3, C_NOREF); }
        if (flag == 1) { g.setcv(h, 1, C_NOREF); g.setcv(h, 2, C_NOREF); }
        auto x = g.svec<T>("x", n + g.badd(1), C_INOUT);
        auto y = g.svec<T>("y", n, C_INOUT);
        g.flags(F_NOALLOC);
        g.nan(1);
        const T* hp = h.ptr;
        if (flag == -2) g.call([=]() mutable { tlapack::rotm<-2>(x, y, hp); });
        else if (flag == -1) g.call([=]() mutable { tlapack::rotm<-1>(x, y, hp); });
        else if (flag == 0) g.call([=]() mutable { tlapack::rotm<0>(x, y, hp); });
        else g.call([=]() mutable { tlapack::rotm<1>(x, y, hp); });
    }
}
OPF(rotmg)
{
    BEGIN
    if constexpr (CX) { (void)g; }
    else {
        g.flags(F_DATAEXC);
        auto& d1 = g.cell<T>("d1", C_INOUT);
        auto& d2 = g.cell<T>("d2", C_INOUT);
        auto& a = g.cell<T>("a", C_INOUT);
        auto& b = g.cell<T>("b", C_IN);
        auto h = g.vec<T>("h", 4, C_SCRATCH);
        if (g.flip(0.8)) { using std::abs; d1 = abs(d1); d2 = abs(d2); }
        double u = g.r.unit();
        if (g.bad(1)) d1 = -std::abs(d1);
        else if (u < 0.15) d1 *= T(1e10); else if (u < 0.3) d2 *= T(1e-10); else if (u < 0.4) b = T(0);
        g.flags(F_NOALLOC);
        g.nan(0);
        T* hp = h.ptr;
        g.call([&d1, &d2, &a, &b, hp] { return tlapack::rotmg(d1, d2, a, (const T&)b, hp); });
    }
}
// ------------------------------------------------------------------ level 2
OPF(gemv)
{
    BEGIN
    Op op = g.pick({Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj});
    idx m = g.dim(), n = g.dim();
    auto alpha = g.scalar<T>();
    auto beta = g.scalar<T>();
    bool nobeta = g.flip(0.35);
    bool nt = op == Op::NoTrans || op == Op::Conj;
    auto A = g.mat<T, L>("A", m, n, C_IN);
    auto x = g.svec<T>("x", (nt ? n : m) + g.badd(1), C_IN);
    auto y = g.svec<T>("y", (nt ? m : n) + g.badd(2), nobeta ? C_OUT : C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    op = g.bop(3, op);
    if (nobeta) g.call([=]() mutable { tlapack::gemv(op, alpha, A, x, y); });
    else g.call([=]() mutable { tlapack::gemv(op, alpha, A, x, beta, y); });
}
template <class T, tlapack::Layout L, bool SY> static void hemvx(sim::Build* b_, const sim::BuildParams* p_)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim();
    auto alpha = g.scalar<T>();
    auto beta = g.scalar<T>();
    bool nobeta = g.flip(0.35);
    auto A = g.mat<T, L>("A", n, n + g.badd(1), C_IN);
    g.tri(A, u);
    if (!SY) g.imagdiag(A, C_NOREF);
    auto x = g.svec<T>("x", n + g.badd(2), C_IN);
    auto y = g.svec<T>("y", n + g.badd(3), nobeta ? C_OUT : C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    u = g.bup(4, u);
    if constexpr (SY) {
        if (nobeta) g.call([=]() mutable { tlapack::symv(u, alpha, A, x, y); });
        else g.call([=]() mutable { tlapack::symv(u, alpha, A, x, beta, y); });
    }
    else {
        if (nobeta) g.call([=]() mutable { tlapack::hemv(u, alpha, A, x, y); });
        else g.call([=]() mutable { tlapack::hemv(u, alpha, A, x, beta, y); });
    }
}
OPF(hemv) { hemvx<T, L, false>(b_, p_); }
OPF(symv) { hemvx<T, L, true>(b_, p_); }
template <class T, tlapack::Layout L, bool CJ> static void gerx(sim::Build* b_, const sim::BuildParams* p_)
{
    BEGIN
    idx m = g.dim(), n = g.dim();
    auto alpha = g.scalar<T>();
    auto x = g.svec<T>("x", m + g.badd(1), C_IN);
    auto y = g.svec<T>("y", n + g.badd(2), C_IN);
    auto A = g.mat<T, L>("A", m, n, C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    if constexpr (CJ) g.call([=]() mutable { tlapack::ger(alpha, x, y, A); });
    else g.call([=]() mutable { tlapack::geru(alpha, x, y, A); });
}
OPF(ger) { gerx<T, L, true>(b_, p_); }
OPF(geru) { gerx<T, L, false>(b_, p_); }
OPF(her)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim();
    R alpha = g.scalar<R>();
    auto x = g.svec<T>("x", n + g.badd(1), C_IN);
    auto A = g.mat<T, L>("A", n, n + g.badd(2), C_INOUT);
    g.tri(A, u);
    g.imagdiag(A, C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    u = g.bup(3, u);
    g.call([=]() mutable { tlapack::her(u, alpha, x, A); });
}
OPF(syr)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim();
    T alpha = g.scalar<T>();
    auto x = g.svec<T>("x", n + g.badd(1), C_IN);
    auto A = g.mat<T, L>("A", n, n + g.badd(2), C_INOUT);
    g.tri(A, u);
    g.flags(F_NOALLOC);
    g.nan(1);
    u = g.bup(3, u);
    g.call([=]() mutable { tlapack::syr(u, alpha, x, A); });
}
template <class T, tlapack::Layout L, bool SY> static void her2x(sim::Build* b_, const sim::BuildParams* p_)
{
    BEGIN
    Uplo u = g.uplo();
    idx n = g.dim();
    T alpha = g.scalar<T>();
    auto x = g.svec<T>("x", n + g.badd(1), C_IN);
    auto y = g.svec<T>("y", n + g.badd(2), C_IN);
    auto A = g.mat<T, L>("A", n, n + g.badd(3), C_INOUT);
    g.tri(A, u);
    if (!SY) g.imagdiag(A, C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    u = g.bup(4, u);
    if constexpr (SY) g.call([=]() mutable { tlapack::syr2(u, alpha, x, y, A); });
    else g.call([=]() mutable { tlapack::her2(u, alpha, x, y, A); });
}
OPF(her2) { her2x<T, L, false>(b_, p_); }
OPF(syr2) { her2x<T, L, true>(b_, p_); }
template <class T, tlapack::Layout L, bool SV> static void trxv(sim::Build* b_, const sim::BuildParams* p_)
{
    BEGIN
    Uplo u = g.uplo();
    Op op = g.pick({Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj});
    Diag d = g.diag_();
    idx n = g.dim();
    auto A = g.mat<T, L>("A", n, n + g.badd(1), C_IN);
    if (d == Diag::NonUnit) g.domdiag(A); else g.scaleall(A, 0.3);
    g.tri(A, u);
    if (d == Diag::Unit) g.diagcls(A, C_NOREF);
    auto x = g.svec<T>("x", n + g.badd(2), C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    u = g.bup(3, u);
    op = g.bop(4, op);
    d = g.bdg(5, d);
    if constexpr (SV) g.call([=]() mutable { tlapack::trsv(u, op, d, A, x); });
    else g.call([=]() mutable { tlapack::trmv(u, op, d, A, x); });
}
OPF(trmv) { trxv<T, L, false>(b_, p_); }
OPF(trsv) { trxv<T, L, true>(b_, p_); }
// ------------------------------------------------------------------ level 3
OPF(gemm)
{
    BEGIN
    Op ta = g.op3(), tb = g.op3();
    idx m = g.dim(), n = g.dim(), k = g.dim();
    auto alpha = g.scalar<T>();
    auto beta = g.scalar<T>();
    bool nobeta = g.flip(0.35);
    auto A = ta == Op::NoTrans ? g.mat<T, L>("A", m, k, C_IN) : g.mat<T, L>("A", k, m, C_IN);
    idx kb = k + g.badd(1);
    auto B = tb == Op::NoTrans ? g.mat<T, L>("B", kb, n, C_IN) : g.mat<T, L>("B", n, kb, C_IN);
    auto C = g.mat<T, L>("C", m + g.badd(2), n + g.badd(3), nobeta ? C_OUT : C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    ta = g.bop(4, ta);
    tb = g.bop(5, tb);
    if (nobeta) g.call([=]() mutable { tlapack::gemm(ta, tb, alpha, A, B, C); });
    else g.call([=]() mutable { tlapack::gemm(ta, tb, alpha, A, B, beta, C); });
}
template <class T, tlapack::Layout L, bool SY> static void hemmx(sim::Build* b_, const sim::BuildParams* p_)
{
    BEGIN
    Side s = g.side();
    Uplo u = g.uplo();
    idx m = g.dim(), n = g.dim();
    auto alpha = g.scalar<T>();
    auto beta = g.scalar<T>();
    bool nobeta = g.flip(0.35);
    idx na = s == Side::Left ? m : n;
    na += g.badd(6);
    auto A = g.mat<T, L>("A", na, na + g.badd(1), C_IN);
    g.tri(A, u);
    if (!SY) g.imagdiag(A, C_NOREF);
    auto B = g.mat<T, L>("B", m + g.badd(2), n, C_IN);
    auto C = g.mat<T, L>("C", m, n + g.badd(3), nobeta ? C_OUT : C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    s = g.bsd(4, s);
    u = g.bup(5, u);
    if constexpr (SY) {
        if (nobeta) g.call([=]() mutable { tlapack::symm(s, u, alpha, A, B, C); });
        else g.call([=]() mutable { tlapack::symm(s, u, alpha, A, B, beta, C); });
    }
    else {
        if (nobeta) g.call([=]() mutable { tlapack::hemm(s, u, alpha, A, B, C); });
        else g.call([=]() mutable { tlapack::hemm(s, u, alpha, A, B, beta, C); });
    }
}
OPF(hemm) { hemmx<T, L, false>(b_, p_); }
OPF(symm) { hemmx<T, L, true>(b_, p_); }
template <class T, tlapack::Layout L, bool SY> static void herkx(sim::Build* b_, const sim::BuildParams* p_)
{
    BEGIN
    Uplo u = g.uplo();
    Op op = (g.flip()) ? Op::NoTrans : (SY ? Op::Trans : Op::ConjTrans);
    idx n = g.dim(), k = g.dim();
    using S = std::conditional_t<SY, T, R>;
    auto alpha = g.scalar<S>();
    auto beta = g.scalar<S>();
    bool nobeta = g.flip(0.35);
    auto A = op == Op::NoTrans ? g.mat<T, L>("A", n, k, C_IN) : g.mat<T, L>("A", k, n, C_IN);
    idx bc = g.badd(5);
    auto C = g.mat<T, L>("C", n + g.badd(1) + bc, n + g.badd(2) + bc, nobeta ? C_OUT : C_INOUT);
    bool gen = g.flip(0.2);
    g.tri(C, gen ? Uplo::Upper : u, gen ? C_OUT : C_NOREF);
    if (gen) u = Uplo::General;
    if (!SY) g.imagdiag(C, C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    u = g.bup(3, u);
    op = g.bop(4, op);
    if constexpr (SY) {
        if (nobeta) g.call([=]() mutable { tlapack::syrk(u, op, alpha, A, C); });
        else g.call([=]() mutable { tlapack::syrk(u, op, alpha, A, beta, C); });
    }
    else {
        if (nobeta) g.call([=]() mutable { tlapack::herk(u, op, alpha, A, C); });
        else g.call([=]() mutable { tlapack::herk(u, op, alpha, A, beta, C); });
    }
}
OPF(herk) { herkx<T, L, false>(b_, p_); }
OPF(syrk) { herkx<T, L, true>(b_, p_); }
template <class T, tlapack::Layout L, bool SY> static void her2kx(sim::Build* b_, const sim::BuildParams* p_)
{
    BEGIN
    Uplo u = g.uplo();
    Op op = (g.flip()) ? Op::NoTrans : (SY ? Op::Trans : Op::ConjTrans);
    idx n = g.dim(), k = g.dim();
    using S = std::conditional_t<SY, T, R>;
    auto alpha = g.scalar<T>();
    auto beta = g.scalar<S>();
    bool nobeta = g.flip(0.35);
    idx kb = k + g.badd(1);
    auto A = op == Op::NoTrans ? g.mat<T, L>("A", n, k, C_IN) : g.mat<T, L>("A", k, n, C_IN);
    auto B = op == Op::NoTrans ? g.mat<T, L>("B", n, kb, C_IN) : g.mat<T, L>("B", kb, n, C_IN);
    idx bc = g.badd(6);
    auto C = g.mat<T, L>("C", n + g.badd(2) + bc, n + g.badd(3) + bc, nobeta ? C_OUT : C_INOUT);
    bool gen = g.flip(0.2);
    g.tri(C, gen ? Uplo::Upper : u, gen ? C_OUT : C_NOREF);
    if (gen) u = Uplo::General;
    if (!SY) g.imagdiag(C, C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    u = g.bup(4, u);
    op = g.bop(5, op);
    if constexpr (SY) {
        if (nobeta) g.call([=]() mutable { tlapack::syr2k(u, op, alpha, A, B, C); });
        else g.call([=]() mutable { tlapack::syr2k(u, op, alpha, A, B, beta, C); });
    }
    else {
        if (nobeta) g.call([=]() mutable { tlapack::her2k(u, op, alpha, A, B, C); });
        else g.call([=]() mutable { tlapack::her2k(u, op, alpha, A, B, beta, C); });
    }
}
OPF(her2k) { her2kx<T, L, false>(b_, p_); }
OPF(syr2k) { her2kx<T, L, true>(b_, p_); }
template <class T, tlapack::Layout L, bool SM> static void trxm(sim::Build* b_, const sim::BuildParams* p_)
{
    BEGIN
    Side s = g.side();
    Uplo u = g.uplo();
    Op op = g.op3();
    Diag d = g.diag_();
    idx m = g.dim(), n = g.dim();
    auto alpha = g.scalar<T>();
    idx na = s == Side::Left ? m : n;
    auto A = g.mat<T, L>("A", na, na + g.badd(1), C_IN);
    if (d == Diag::NonUnit) g.domdiag(A); else g.scaleall(A, 0.3);
    g.tri(A, u);
    if (d == Diag::Unit) g.diagcls(A, C_NOREF);
    idx x = g.badd(2);
    auto B = g.mat<T, L>("B", m + (s == Side::Left ? x : 0), n + (s == Side::Left ? 0 : x), C_INOUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    s = g.bsd(3, s);
    u = g.bup(4, u);
    op = g.bop(5, op);
    d = g.bdg(6, d);
    if constexpr (SM) g.call([=]() mutable { tlapack::trsm(s, u, op, d, alpha, A, B); });
    else g.call([=]() mutable { tlapack::trmm(s, u, op, d, alpha, A, B); });
}
OPF(trmm) { trxm<T, L, false>(b_, p_); }
OPF(trsm) { trxm<T, L, true>(b_, p_); }

using namespace sim;
CATALOGUE_BEGIN
REG(asum, 0) REG(nrm2, 0) REG(axpy, 0) REG(copy, 0) REG(swap, 0) REG(scal, 0) REG(dot, 0) REG(dotu, 0) REG(iamax, 0) REG(iamax_nan, 0) REG(iamax_inf, 0)
REG(rot, 0) REG(rotg, 0) REG(gemv, 0) REG(hemv, 0) REG(symv, 0) REG(ger, 0) REG(geru, 0) REG(her, 0)
REG(syr, 0) REG(her2, 0) REG(syr2, 0) REG(trmv, 0) REG(trsv, 0) REG(gemm, 0) REG(hemm, 0) REG(symm, 0) REG(herk, 0)
REG(syrk, 0) REG(her2k, 0) REG(syr2k, 0) REG(trmm, 0) REG(trsm, 0)
#ifdef CREAL
REG(lartg, 0) REG(rotm, 0) REG(rotmg, 0)
#endif
CATALOGUE_END
