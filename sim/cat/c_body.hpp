// BLAS through pointers: the C, CBLAS and legacy C++ interfaces have the same
// argument lists.  IFACE: 1 = C, 2 = CBLAS, 3 = legacy C++.
#include "c_help.hpp"
namespace capi {
// ------------------------------------------------------------------ level 1
COP(asum) { CBEGIN idx n = cdim(g); auto x = cvec<T>(g, "x", n, C_IN, 1, false); R* r = g.raw<R>("ret", 1, C_OUT); g.nan(1); g.call([=] { *r = F(FN(asum)(x.n, (const std::remove_pointer_t<decltype(P(x.p))>*)P(x.p), x.inc)); }); }
COP(nrm2) { CBEGIN idx n = cdim(g); auto x = cvec<T>(g, "x", n, C_IN, 1, false); R* r = g.raw<R>("ret", 1, C_OUT); g.nan(1); g.call([=] { *r = F(FN(nrm2)(x.n, (const std::remove_pointer_t<decltype(P(x.p))>*)P(x.p), x.inc)); }); }
COP(iamax) { CBEGIN idx n = g.dim1(); auto x = cvec<T>(g, "x", n, C_IN, 1, false); size_t* r = g.raw<size_t>("ret", 1, C_OUT); g.nan(0); g.call([=] { *r = (size_t)IFN(amax)(x.n, (const std::remove_pointer_t<decltype(P(x.p))>*)P(x.p), x.inc); }); }
// as iamax, judged through a floating output: NaN when the element found is NaN, otherwise a checksum
COP(iamaxn)
{
    CBEGIN
    idx n = g.dim1();
    auto x = cvec<T>(g, "x", n, C_IN, 1, false);
    R* r = g.raw<R>("ret", 1, C_OUT);
    g.nan(1);
    g.call([=] {
        size_t k = (size_t)IFN(amax)(x.n, (const std::remove_pointer_t<decltype(P(x.p))>*)P(x.p), x.inc);
        R s(0);
        for (idx i = 0; i < n; ++i) { T v = x.p[i * x.inc]; R q = tlapack::abs1(v * R(0.25)); if (q - q == R(0)) s += q * R(0.001 * (1 + i)); }
        T h = k < n ? x.p[k * x.inc] : T(0);
        *r = h == h ? s : std::numeric_limits<R>::quiet_NaN();
    });
}
#define CPTR(x) ((const std::remove_pointer_t<decltype(P(x.p))>*)P(x.p))
COP(axpy) { CBEGIN idx n = cdim(g); T a = g.scalar<T>(); auto x = cvec<T>(g, "x", n, C_IN, 1); auto y = cvec<T>(g, "y", n, C_INOUT, 2); g.nan(1); g.call([=] { FN(axpy)(n, V(a), CPTR(x), x.inc, P(y.p), y.inc); }); }
COP(copy) { CBEGIN idx n = cdim(g); auto x = cvec<T>(g, "x", n, C_IN, 1); auto y = cvec<T>(g, "y", n, C_OUT, 2); g.nan(1); g.call([=] { FN(copy)(n, CPTR(x), x.inc, P(y.p), y.inc); }); }
COP(swap) { CBEGIN idx n = cdim(g); auto x = cvec<T>(g, "x", n, C_INOUT, 1); auto y = cvec<T>(g, "y", n, C_INOUT, 2); g.nan(1); g.call([=] { FN(swap)(n, P(x.p), x.inc, P(y.p), y.inc); }); }
COP(scal) { CBEGIN idx n = cdim(g); T a = g.scalar<T>(); auto x = cvec<T>(g, "x", n, C_INOUT, 1, false); g.nan(1); g.call([=] { FN(scal)(n, V(a), P(x.p), x.inc); }); }
COP(dot) { CBEGIN idx n = cdim(g); auto x = cvec<T>(g, "x", n, C_IN, 1); auto y = cvec<T>(g, "y", n, C_IN, 2); T* r = g.raw<T>("ret", 1, C_OUT); g.nan(1); g.call([=] { *r = F(FN(dot)(n, CPTR(x), x.inc, CPTR(y), y.inc)); }); }
COP(dotu) { CBEGIN idx n = cdim(g); auto x = cvec<T>(g, "x", n, C_IN, 1); auto y = cvec<T>(g, "y", n, C_IN, 2); T* r = g.raw<T>("ret", 1, C_OUT); g.nan(1); g.call([=] { *r = F(FN(dotu)(n, CPTR(x), x.inc, CPTR(y), y.inc)); }); }
COP(rot)
{
    CBEGIN
    idx n = cdim(g);
    auto x = cvec<T>(g, "x", n, C_INOUT, 1);
    auto y = cvec<T>(g, "y", n, C_INOUT, 2);
    g.nan(1);
    R c = R(0.6), rs = R(0.8);
    T s;
    if constexpr (CX) s = T(R(0.48), R(0.64)); else s = T(0.8);
    bool real = g.flip();
#if IFACE == 3
    if (real) g.call([=] { tlapack::legacy::rot(n, x.p, x.inc, y.p, y.inc, c, rs); });
    else g.call([=] { tlapack::legacy::rot(n, x.p, x.inc, y.p, y.inc, c, s); });
#else
    #ifdef CCPLX
    #define RCC3(a, b, c) a##b##c
    #define RCC(a, b, c) RCC3(a, b, c)
    #if IFACE == 1
    #define RS RCC(CP, CRP, rot)
    #else
    #define RS CC1(cblas_, RCC(CP, CRP, rot))
    #endif
    if (real) { g.call([=] { RS(n, P(x.p), x.inc, P(y.p), y.inc, c, rs); }); return; }
    #endif
    (void)real; (void)rs;
    g.call([=] { FN(rot)(n, P(x.p), x.inc, P(y.p), y.inc, c, V(s)); });
#endif
}
COP(rotg)
{
    CBEGIN
    T* a = g.raw<T>("a", 1, C_INOUT);
    T* b = g.raw<T>("b", 1, CX ? C_IN : C_INOUT);
    R* c = g.raw<R>("c", 1, C_OUT);
    T* s = g.raw<T>("s", 1, C_OUT);
    double u = g.r.unit();
    if (u < 0.1) *a = T(0); else if (u < 0.2) *b = T(0); else if (u < 0.3) *a *= R(1e-30); else if (u < 0.4) *b *= R(1e30);
    g.call([=] { FN(rotg)(P(a), P(b), P(c), P(s)); });
}
#ifdef CREAL
COP(rotm)
{
    CBEGIN
    idx n = cdim(g);
    T* h = g.raw<T>("h", 5, C_IN);
    int flag = -2 + (int)g.r.below(4);
    h[0] = T(flag);
    auto noref = [&](int i) { sim_setcls(g.b, h + 1 + i, sizeof(T), C_NOREF); };
    if (flag == -2) for (int i = 0; i < 4; ++i) noref(i);
    if (flag == 0) { noref(0); noref(3); }
    if (flag == 1) { noref(1); noref(2); }
    auto x = cvec<T>(g, "x", n, C_INOUT, 1);
    auto y = cvec<T>(g, "y", n, C_INOUT, 2);
    g.nan(0);
    g.call([=] { FN(rotm)(n, x.p, x.inc, y.p, y.inc, (const T*)h); });
}
COP(rotmg)
{
    CBEGIN
    T* d1 = g.raw<T>("d1", 1, C_INOUT);
    T* d2 = g.raw<T>("d2", 1, C_INOUT);
    T* a = g.raw<T>("a", 1, C_INOUT);
    T b = g.val<T>();
    T* h = g.raw<T>("h", 5, C_SCRATCH);
    *d1 = std::abs(*d1) + T(0.01);
    if (g.flip(0.8)) *d2 = std::abs(*d2);
    double u = g.r.unit();
    if (u < 0.15) *d1 *= T(1e10); else if (u < 0.3) *d2 *= T(1e-10); else if (u < 0.4) b = T(0);
    if (g.bad(1)) *d1 = T(-1);
    g.nan(0);
    g.call([=] { FN(rotmg)(d1, d2, a, b, h); });
}
#endif
// ------------------------------------------------------------------ level 2
COP(gemv)
{
    CBEGIN
    bool row = g.flip();
    int op = (int)g.r.below(3);
    idx m = cdim(g), n = cdim(g);
    T al = g.scalar<T>(), be = g.scalar<T>();
    auto A = cmat<T>(g, "A", row, m, n, C_IN, 1);
    auto x = cvec<T>(g, "x", op ? m : n, C_IN, 2);
    auto y = cvec<T>(g, "y", op ? n : m, be == T(0) && m && n ? C_OUT : C_INOUT, 3);
    g.nan(1);
    int l = nb(g, 4, row), o = nb(g, 5, op);
    g.call([=] { FN(gemv)(LAY(l), OPS(o), m, n, V(al), CPTR(A), A.ld, CPTR(x), x.inc, V(be), P(y.p), y.inc); });
}
#define GERF(f) \
COP(f) \
{ \
    CBEGIN \
    bool row = g.flip(); \
    idx m = cdim(g), n = cdim(g); \
    T al = g.scalar<T>(); \
    auto x = cvec<T>(g, "x", m, C_IN, 1); \
    auto y = cvec<T>(g, "y", n, C_IN, 2); \
    auto A = cmat<T>(g, "A", row, m, n, C_INOUT, 3); \
    g.nan(1); \
    int l = nb(g, 4, row); \
    g.call([=] { FN(f)(LAY(l), m, n, V(al), CPTR(x), x.inc, CPTR(y), y.inc, P(A.p), A.ld); }); \
}
GERF(ger) GERF(geru)
#define HEMVF(f, SY) \
COP(f) \
{ \
    CBEGIN \
    bool row = g.flip(), up = g.flip(); \
    idx n = cdim(g); \
    T al = g.scalar<T>(), be = g.scalar<T>(); \
    auto A = cmat<T>(g, "A", row, n, n, C_IN, 1); \
    ctri(g, A, up); \
    if (!SY) cimag(g, A, C_NOREF); \
    auto x = cvec<T>(g, "x", n, C_IN, 2); \
    auto y = cvec<T>(g, "y", n, be == T(0) ? C_OUT : C_INOUT, 3); \
    g.nan(1); \
    int l = nb(g, 4, row), u = nb(g, 5, up); \
    g.call([=] { FN(f)(LAY(l), UPL(u), n, V(al), CPTR(A), A.ld, CPTR(x), x.inc, V(be), P(y.p), y.inc); }); \
}
HEMVF(hemv, false) HEMVF(symv, true)
#define HERF(f, S, SY) \
COP(f) \
{ \
    CBEGIN \
    bool row = g.flip(), up = g.flip(); \
    idx n = cdim(g); \
    S al = g.scalar<S>(); \
    auto x = cvec<T>(g, "x", n, C_IN, 1); \
    auto A = cmat<T>(g, "A", row, n, n, C_INOUT, 2); \
    ctri(g, A, up); \
    if (!SY && al != S(0)) cimag(g, A, C_OUT); \
    g.nan(1); \
    int l = nb(g, 3, row), u = nb(g, 4, up); \
    g.call([=] { FN(f)(LAY(l), UPL(u), n, V(al), CPTR(x), x.inc, P(A.p), A.ld); }); \
}
HERF(her, R, false)
#ifdef CREAL
HERF(syr, T, true)
#endif
#define HER2F(f, SY) \
COP(f) \
{ \
    CBEGIN \
    bool row = g.flip(), up = g.flip(); \
    idx n = cdim(g); \
    T al = g.scalar<T>(); \
    auto x = cvec<T>(g, "x", n, C_IN, 1); \
    auto y = cvec<T>(g, "y", n, C_IN, 2); \
    auto A = cmat<T>(g, "A", row, n, n, C_INOUT, 3); \
    ctri(g, A, up); \
    if (!SY && al != T(0)) cimag(g, A, C_OUT); \
    g.nan(1); \
    int l = nb(g, 4, row), u = nb(g, 5, up); \
    g.call([=] { FN(f)(LAY(l), UPL(u), n, V(al), CPTR(x), x.inc, CPTR(y), y.inc, P(A.p), A.ld); }); \
}
HER2F(her2, false) HER2F(syr2, true)
#define TRMVF(f) \
COP(f) \
{ \
    CBEGIN \
    bool row = g.flip(), up = g.flip(), unit = g.flip(); \
    int op = (int)g.r.below(3); \
    idx n = cdim(g); \
    auto A = cmat<T>(g, "A", row, n, n, C_IN, 1); \
    for (idx i = 0; i < n; ++i) A(i, i) += T(R(2)); \
    ctri(g, A, up, unit); \
    auto x = cvec<T>(g, "x", n, C_INOUT, 2); \
    g.nan(1); \
    int l = nb(g, 3, row), u = nb(g, 4, up), o = nb(g, 5, op), d = nb(g, 6, unit); \
    g.call([=] { FN(f)(LAY(l), UPL(u), OPS(o), DIA(d), n, CPTR(A), A.ld, P(x.p), x.inc); }); \
}
TRMVF(trmv) TRMVF(trsv)
// ------------------------------------------------------------------ level 3
COP(gemm)
{
    CBEGIN
    bool row = g.flip();
    int oa = (int)g.r.below(3), ob = (int)g.r.below(3);
    idx m = cdim(g), n = cdim(g), k = cdim(g);
    T al = g.scalar<T>(), be = g.scalar<T>();
    auto A = oa ? cmat<T>(g, "A", row, k, m, C_IN, 1) : cmat<T>(g, "A", row, m, k, C_IN, 1);
    auto B = ob ? cmat<T>(g, "B", row, n, k, C_IN, 2) : cmat<T>(g, "B", row, k, n, C_IN, 2);
    auto C = cmat<T>(g, "C", row, m, n, be == T(0) ? C_OUT : C_INOUT, 3);
    g.nan(1);
    int l = nb(g, 4, row), a = nb(g, 5, oa), b = nb(g, 6, ob);
    g.call([=] { FN(gemm)(LAY(l), OPS(a), OPS(b), m, n, k, V(al), CPTR(A), A.ld, CPTR(B), B.ld, V(be), P(C.p), C.ld); });
}
#define HEMMF(f, SY) \
COP(f) \
{ \
    CBEGIN \
    bool row = g.flip(), up = g.flip(), left = g.flip(); \
    idx m = cdim(g), n = cdim(g), na = left ? m : n; \
    T al = g.scalar<T>(), be = g.scalar<T>(); \
    auto A = cmat<T>(g, "A", row, na, na, C_IN, 1); \
    ctri(g, A, up); \
    if (!SY) cimag(g, A, C_NOREF); \
    auto B = cmat<T>(g, "B", row, m, n, C_IN, 2); \
    auto C = cmat<T>(g, "C", row, m, n, be == T(0) ? C_OUT : C_INOUT, 3); \
    g.nan(1); \
    int l = nb(g, 4, row), u = nb(g, 5, up), s = nb(g, 6, left); \
    g.call([=] { FN(f)(LAY(l), SID(s), UPL(u), m, n, V(al), CPTR(A), A.ld, CPTR(B), B.ld, V(be), P(C.p), C.ld); }); \
}
HEMMF(hemm, false) HEMMF(symm, true)
#define RKF(f, S, SY) \
COP(f) \
{ \
    CBEGIN \
    bool row = g.flip(), up = g.flip(), nt = g.flip(); \
    idx n = cdim(g), k = cdim(g); \
    S al = g.scalar<S>(), be = g.scalar<S>(); \
    auto A = nt ? cmat<T>(g, "A", row, n, k, C_IN, 1) : cmat<T>(g, "A", row, k, n, C_IN, 1); \
    auto C = cmat<T>(g, "C", row, n, n, be == S(0) ? C_OUT : C_INOUT, 2); \
    ctri(g, C, up); \
    if (!SY && !((al == S(0) || k == 0) && be == S(1))) cimag(g, C, C_OUT); \
    g.nan(1); \
    int op = nt ? 0 : (SY || (!CX && g.flip()) ? 1 : 2); \
    int l = nb(g, 3, row), u = nb(g, 4, up), o = nb(g, 5, op); \
    if (CX && g.bad(6)) o = SY ? 2 : 1; \
    g.call([=] { FN(f)(LAY(l), UPL(u), OPS(o), n, k, V(al), CPTR(A), A.ld, V(be), P(C.p), C.ld); }); \
}
RKF(herk, R, false) RKF(syrk, T, true)
#define R2KF(f, S, SY) \
COP(f) \
{ \
    CBEGIN \
    bool row = g.flip(), up = g.flip(), nt = g.flip(); \
    idx n = cdim(g), k = cdim(g); \
    T al = g.scalar<T>(); \
    S be = g.scalar<S>(); \
    auto A = nt ? cmat<T>(g, "A", row, n, k, C_IN, 1) : cmat<T>(g, "A", row, k, n, C_IN, 1); \
    auto B = nt ? cmat<T>(g, "B", row, n, k, C_IN, 2) : cmat<T>(g, "B", row, k, n, C_IN, 2); \
    auto C = cmat<T>(g, "C", row, n, n, be == S(0) ? C_OUT : C_INOUT, 3); \
    ctri(g, C, up); \
    if (!SY && !((al == T(0) || k == 0) && be == S(1))) cimag(g, C, C_OUT); \
    g.nan(1); \
    int op = nt ? 0 : (SY || (!CX && g.flip()) ? 1 : 2); \
    int l = nb(g, 4, row), u = nb(g, 5, up), o = nb(g, 6, op); \
    if (CX && g.bad(7)) o = SY ? 2 : 1; \
    g.call([=] { FN(f)(LAY(l), UPL(u), OPS(o), n, k, V(al), CPTR(A), A.ld, CPTR(B), B.ld, V(be), P(C.p), C.ld); }); \
}
R2KF(her2k, R, false) R2KF(syr2k, T, true)
#define TRMMF(f) \
COP(f) \
{ \
    CBEGIN \
    bool row = g.flip(), up = g.flip(), unit = g.flip(), left = g.flip(); \
    int op = (int)g.r.below(3); \
    idx m = cdim(g), n = cdim(g), na = left ? m : n; \
    T al = g.scalar<T>(); \
    auto A = cmat<T>(g, "A", row, na, na, C_IN, 1); \
    for (idx i = 0; i < na; ++i) A(i, i) += T(R(2)); \
    ctri(g, A, up, unit); \
    auto B = cmat<T>(g, "B", row, m, n, al == T(0) ? C_OUT : C_INOUT, 2); \
    g.nan(1); \
    int l = nb(g, 3, row), u = nb(g, 4, up), o = nb(g, 5, op), d = nb(g, 6, unit), s = nb(g, 7, left); \
    g.call([=] { FN(f)(LAY(l), SID(s), UPL(u), OPS(o), DIA(d), m, n, V(al), CPTR(A), A.ld, P(B.p), B.ld); }); \
}
TRMMF(trmm) TRMMF(trsm)
}  // namespace capi

#define RSTR2(x) #x
#define RSTR(x) RSTR2(x)
#define CREG(f) {RSTR(PFX) #f "." CSUF, capi::f<CT>, ATTR},
static const sim::OpInfo kit_table[] = {
CREG(asum) CREG(nrm2) CREG(iamax) CREG(iamaxn) CREG(axpy) CREG(copy) CREG(swap) CREG(scal) CREG(dot) CREG(dotu) CREG(rot) CREG(rotg)
#ifdef CREAL
CREG(rotm) CREG(rotmg) CREG(syr)
#endif
CREG(gemv) CREG(ger) CREG(geru) CREG(hemv) CREG(symv) CREG(her) CREG(her2) CREG(syr2) CREG(trmv) CREG(trsv)
CREG(gemm) CREG(hemm) CREG(symm) CREG(herk) CREG(syrk) CREG(her2k) CREG(syr2k) CREG(trmm) CREG(trsm)
CATALOGUE_END
