// LAPACK routines through pointers (include/tlapack/legacy_api/lapack), column major.
#define IFACE 3
#include "c_help.hpp"
#include <tlapack/legacy_api/lapack.hpp>
#include <limits>
#undef PFX
#define PFX lp_

namespace capi {
namespace lg = tlapack::legacy;
using tlapack::Direction; using tlapack::Norm; using tlapack::StoreV; using tlapack::Side; using tlapack::Uplo; using tlapack::Op; using tlapack::Diag;
#define LBEGIN G g(b_, p_); using R = Re<T>; (void)sizeof(R); constexpr bool CX = isC<T>::value; (void)CX;
template <class T> T* tvec(G& g, const char* nm, idx n, int cls) { auto v = (T*)sim_operand(g.b, nm, kit::kindof<T>::v, sizeof(T), n, cls); if (cls == C_IN || cls == C_INOUT) for (idx i = 0; i < n; ++i) v[i] = g.val<T>(); return v; }
inline Norm norms(G& g, int k) { Norm a[4] = {Norm::Max, Norm::One, Norm::Inf, Norm::Fro}; return g.bad(k) ? (Norm)'?' : a[g.r.below(4)]; }
template <class T> void clsall(G& g, Mx<T> A, int cls) { for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) sim_setcls(g.b, &A(i, j), sizeof(T), cls); }
// the parts of V that hold reflectors
template <class T> Mx<T> refl(G& g, Direction d, StoreV sv, idx n, idx k, int badk)
{
    bool cw = sv != StoreV::Rowwise;
    auto V = cw ? cmat<T>(g, "V", false, n, k, C_IN, badk) : cmat<T>(g, "V", false, k, n, C_IN, badk);
    for (idx j = 0; j < V.n; ++j)
        for (idx i = 0; i < V.m; ++i) {
            bool ref = cw ? (d == Direction::Forward ? i > j : i + k < n + j) : (d == Direction::Forward ? j > i : j + k < n + i);
            if (!ref) sim_setcls(g.b, &V(i, j), sizeof(T), C_NOREF);
        }
    return V;
}
COP(lange) { LBEGIN auto nt = norms(g, 1); idx m = cdim(g), n = cdim(g); auto A = cmat<T>(g, "A", false, m, n, C_IN, 2); R* r = g.raw<R>("ret", 1, C_OUT); g.flags(F_NOALLOC); g.nan(1); g.call([=] { *r = lg::lange(nt, m, n, (const T*)A.p, A.ld); }); }
COP(lansy) { LBEGIN auto nt = norms(g, 1); bool up = g.flip(); int u = nb(g, 2, up); idx n = cdim(g); auto A = cmat<T>(g, "A", false, n, n, C_IN, 3); ctri(g, A, up); R* r = g.raw<R>("ret", 1, C_OUT); g.flags(F_NOALLOC); g.nan(1); g.call([=] { *r = lg::lansy(nt, UPL(u), n, (const T*)A.p, A.ld); }); }
COP(lanhe) { LBEGIN auto nt = norms(g, 1); bool up = g.flip(); int u = nb(g, 2, up); idx n = cdim(g); auto A = cmat<T>(g, "A", false, n, n, C_IN, 3); ctri(g, A, up); cimag(g, A, C_NOREF); R* r = g.raw<R>("ret", 1, C_OUT); g.flags(F_NOALLOC); g.nan(1); g.call([=] { *r = lg::lanhe(nt, UPL(u), n, (const T*)A.p, A.ld); }); }
COP(lantr)
{
    LBEGIN
    auto nt = norms(g, 1);
    bool up = g.flip(), un = g.flip();
    int u = nb(g, 2, up), d = nb(g, 3, un);
    idx m = cdim(g), n = cdim(g);
    auto A = cmat<T>(g, "A", false, m, n, C_IN, 4);
    ctri(g, A, up, un);
    R* r = g.raw<R>("ret", 1, C_OUT);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=] { *r = lg::lantr(nt, UPL(u), DIA(d), m, n, (const T*)A.p, A.ld); });
}
COP(lacpy)
{
    LBEGIN
    int k = (int)g.r.below(3), u = nb(g, 1, k);
    idx m = cdim(g), n = cdim(g);
    auto A = cmat<T>(g, "A", false, m, n, C_IN, 2);
    auto B = cmat<T>(g, "B", false, m, n, C_OUT, 3);
    if (k < 2) { ctri(g, A, k == 1); ctri(g, B, k == 1); }
    bool mt = g.flip() && u >= 0;
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=] {
        if (mt) lg::lacpy(k == 2 ? lg::MatrixType::General : k == 1 ? lg::MatrixType::Upper : lg::MatrixType::Lower, m, n, (const T*)A.p, A.ld, B.p, B.ld);
        else lg::lacpy(u == 2 ? Uplo::General : UPL(u), m, n, (const T*)A.p, A.ld, B.p, B.ld);
    });
}
COP(laset)
{
    LBEGIN
    int k = (int)g.r.below(3), u = nb(g, 1, k);
    idx m = cdim(g), n = cdim(g);
    T a = g.scalar<T>(), d = g.scalar<T>();
    auto A = cmat<T>(g, "A", false, m, n, C_OUT, 2);
    if (k < 2) ctri(g, A, k == 1);
    bool mt = g.flip() && u >= 0;
    g.flags(F_NOALLOC);
    g.nan(0);
    g.call([=] {
        if (mt) lg::laset(k == 2 ? lg::MatrixType::General : k == 1 ? lg::MatrixType::Upper : lg::MatrixType::Lower, m, n, a, d, A.p, A.ld);
        else lg::laset(u == 2 ? Uplo::General : UPL(u), m, n, a, d, A.p, A.ld);
    });
}
COP(lascl)
{
    LBEGIN
    using MT = lg::MatrixType;
    const MT types[7] = {MT::General, MT::Lower, MT::Upper, MT::Hessenberg, MT::LowerBand, MT::UpperBand, MT::Band};
    int t = (int)g.r.below(7);
    R a = R(g.val<R>()), b = R(1.5 + 0.4 * g.val<R>());
    int sc = (int)g.r.below(6);
    if (sc == 0) b *= std::numeric_limits<R>::min();
    if (sc == 1) a *= std::numeric_limits<R>::min();
    if (sc == 3) a = 0;
    if (g.bad(2)) b = R(0);
    if (g.bad(3)) a = std::numeric_limits<R>::quiet_NaN();
    idx m = g.dim1(), n = g.dim1(), kl = 0, ku = 0;
    T* p;
    idx ld;
    if (t < 4) {
        auto A = cmat<T>(g, "A", false, m, n, C_INOUT, 4);
        if (t == 1 || t == 2) ctri(g, A, t == 2);
        if (t == 3) for (idx j = 0; j < n; ++j) for (idx i = j + 2; i < m; ++i) sim_setcls(g.b, &A(i, j), sizeof(T), C_NOREF);
        p = A.p;
        ld = A.ld;
    }
    else {
        if (t == 6) kl = g.r.below(m), ku = g.r.below(n);
        else { m = n; kl = ku = g.r.below(n); }
        idx rows = t == 6 ? 2 * kl + ku + 1 : kl + 1, off = t == 6 ? kl + ku : t == 5 ? ku : 0, dn = t == 5 ? 0 : kl, up = t == 4 ? 0 : ku;
        ld = rows + (g.flip() ? 0 : g.r.below(3));
        p = tvec<T>(g, "AB", ld * n, C_NOREF);
        for (idx j = 0; j < n; ++j)
            for (idx i = j > up ? j - up : 0; i < std::min(m, j + dn + 1); ++i) { p[off + i - j + j * ld] = g.val<T>(); sim_setcls(g.b, p + (off + i - j + j * ld), sizeof(T), C_INOUT); }
        if (g.bad(5)) kl = t == 6 ? m : n, ku = t == 6 ? ku : kl;
        if (g.bad(6)) ku = n, kl = t == 6 ? kl : ku;
        if (g.bad(7)) ld = rows - 1;
    }
    MT mt = g.bad(1) ? (MT)'?' : types[t];
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=] { return lg::lascl(mt, kl, ku, b, a, m, n, p, ld); });
}
COP(lassq)
{
    LBEGIN
    idx n = cdim(g);
    auto x = cvec<T>(g, "x", n, C_IN);
    R* s = g.raw<R>("scl", 1, C_INOUT);
    R* q = g.raw<R>("sumsq", 1, C_INOUT);
    *s = g.flip(0.3) ? R(0) : R(1) + R(0.5) * g.val<R>();
    *q = g.flip(0.3) ? R(0) : R(1.5) + g.val<R>();
    g.flags(F_NOALLOC);
    g.call([=] { lg::lassq(n, (const T*)x.p, x.inc, *s, *q); });
}
COP(larfg)
{
    LBEGIN
    idx n = g.dim1();
    T* al = g.raw<T>("alpha", 1, C_INOUT);
    *al = g.val<T>();
    auto x = cvec<T>(g, "x", n - 1, C_INOUT);
    T* tau = g.raw<T>("tau", 1, C_OUT);
    bool ptr = g.flip();
    g.flags(F_NOALLOC);
    g.call([=] { if (ptr) lg::larfg(n, al, x.p, x.inc, tau); else lg::larfg(n, *al, x.p, x.inc, *tau); });
}
COP(larf)
{
    LBEGIN
    bool left = g.flip();
    idx m = cdim(g), n = cdim(g), k = left ? m : n;
    auto v = cvec<T>(g, "v", k, C_IN, 1);
    if (k) sim_setcls(g.b, v.p + (v.inc > 0 ? 0 : (k - 1) * (idx)-v.inc), sizeof(T), C_NOREF);
    T tau = g.nzscalar<T>();
    auto C = cmat<T>(g, "C", false, m, n, C_INOUT, 2);
    int s = nb(g, 3, left);
    g.nan(1);
    g.call([=] { lg::larf(SID(s), m, n, (const T*)v.p, v.inc, tau, C.p, C.ld); });
}
COP(larft)
{
    LBEGIN
    idx n = g.dim1(), k = g.dimr(1, n);
    Direction d = g.direction();
    StoreV sv = g.storev();
    auto V = refl<T>(g, d, sv, n, k, 1);
    T* tau = tvec<T>(g, "tau", k, C_IN);
    auto Tm = cmat<T>(g, "T", false, k, k, C_OUT, 2);
    ctri(g, Tm, d == Direction::Forward);
    if (g.bad(3)) d = (Direction)'?';
    if (g.bad(4)) sv = (StoreV)'?';
    g.flags(F_NOALLOC);
    g.call([=] { return lg::larft(d, sv, n, k, (const T*)V.p, V.ld, (const T*)tau, Tm.p, Tm.ld); });
}
COP(larfb)
{
    LBEGIN
    bool left = g.flip();
    idx m = g.dim1(), n = g.dim1(), q = left ? m : n, k = g.dimr(1, q);
    int op = CX ? (g.flip() ? 0 : 2) : (int)g.r.below(3);
    Direction d = g.direction();
    StoreV sv = g.storev();
    auto V = refl<T>(g, d, sv, q, k, 1);
    auto Tm = cmat<T>(g, "T", false, k, k, C_IN, 2);
    ctri(g, Tm, d == Direction::Forward);
    auto C = cmat<T>(g, "C", false, m, n, C_INOUT, 3);
    int s = nb(g, 4, left), o = nb(g, 5, op);
    if (CX && g.bad(6)) o = 1;
    if (g.bad(7)) d = (Direction)'?';
    if (g.bad(8)) sv = (StoreV)'?';
    g.call([=] { return lg::larfb(SID(s), OPS(o), d, sv, m, n, k, (const T*)V.p, V.ld, (const T*)Tm.p, Tm.ld, C.p, C.ld); });
}
COP(geqr2)
{
    LBEGIN
    idx m = g.dim1(), n = cdim(g);
    auto A = cmat<T>(g, "A", false, m, n, C_INOUT, 1);
    T* tau = tvec<T>(g, "tau", std::min(m, n), C_OUT);
    g.call([=] { return lg::geqr2(m, n, A.p, A.ld, tau); });
}
COP(ung2r)
{
    LBEGIN
    idx n = g.dim1(), m = n + g.r.below(4), k = g.flip() ? n : g.dimr(0, n);
    auto A = cmat<T>(g, "A", false, m, n, C_INOUT, 1);
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < m; ++i)
            if (j >= k || i <= j) sim_setcls(g.b, &A(i, j), sizeof(T), C_OUT);
    T* tau = tvec<T>(g, "tau", n, C_IN);
    for (idx i = k; i < n; ++i) sim_setcls(g.b, tau + i, sizeof(T), C_NOREF);
    idx nn = g.bad(2) ? m + 1 : n, kk = g.bad(3) ? n + 1 : k;
    g.call([=] { return lg::ung2r(m, nn, kk, A.p, A.ld, (const T*)tau); });
}
COP(unmqr)
{
    LBEGIN
    bool left = g.flip();
    idx m = g.dim1(), n = g.dim1(), q = left ? m : n, k = g.dimr(1, q);
    int op = CX ? (g.flip() ? 0 : 2) : (int)g.r.below(3);
    auto V = refl<T>(g, Direction::Forward, StoreV::Columnwise, q, k, 1);
    T* tau = tvec<T>(g, "tau", k, C_IN);
    auto C = cmat<T>(g, "C", false, m, n, C_INOUT, 2);
    int s = nb(g, 3, left), o = nb(g, 4, op);
    g.call([=] { return lg::unmqr(SID(s), OPS(o), m, n, k, (const T*)V.p, V.ld, (const T*)tau, C.p, C.ld); });
}
template <class T> void spd(G& g, Mx<T> A, bool indef)
{
    using R = Re<T>;
    for (idx i = 0; i < A.n; ++i) A(i, i) = T(R(2) * R(A.n) + R(g.val<R>()));
    if (indef && A.n) { idx i = g.r.below(A.n); A(i, i) = T(R(-1)); }
}
COP(potrf)
{
    LBEGIN
    bool up = g.flip();
    idx n = g.flip(0.2) ? 33 + g.r.below(8) : cdim(g);
    auto A = cmat<T>(g, "A", false, n, n, C_INOUT, 1);
    spd(g, A, g.flip(0.15));
    ctri(g, A, up);
    int u = nb(g, 2, up);
    g.flags(F_INFO);
    g.call([=] { return lg::potrf(UPL(u), n, A.p, A.ld); });
}
COP(potrs)
{
    LBEGIN
    bool up = g.flip();
    idx n = cdim(g), r = cdim(g);
    auto A = cmat<T>(g, "A", false, n, n, C_IN, 1);
    spd(g, A, false);
    ctri(g, A, up);
    auto B = cmat<T>(g, "B", false, n, r, C_INOUT, 2);
    int u = nb(g, 3, up);
    g.flags(F_NOALLOC);
    g.nan(1);
    g.call([=] { return lg::potrs(UPL(u), n, r, (const T*)A.p, A.ld, B.p, B.ld); });
}
// result code: 1 value out of range, 2 seed not advanced, 4 differs from the templated routine
COP(larnv)
{
    LBEGIN
    idx n = g.dim();
    idx dist = 1 + g.r.below(CX ? 5 : 3);
    lg::idx_t* seed = g.raw<lg::idx_t>("iseed", 1, C_INOUT);
    *seed = (lg::idx_t)(g.r.next() & 0x7fffffff);
    T* x = tvec<T>(g, "x", n, C_OUT);
    g.flags(F_NOALLOC);
    g.nan(0);
    g.call([=]() -> int {
        int code = 0;
        auto s0 = *seed;
        lg::larnv(dist, seed, n, x);
        if (*seed == s0) code |= 2;
        for (idx i = 0; i < n; ++i) {
            double a = (double)std::real(x[i]), b = (double)std::imag(x[i]);
            bool ok = a == a && b == b;
            if (dist == 1) ok = ok && a >= 0 && a <= 1 && b >= 0 && b <= 1;
            if (dist == 2) ok = ok && std::abs(a) <= 1 && std::abs(b) <= 1;
            if (dist == 4 || dist == 5) ok = ok && a * a + b * b <= 1 + 1e-5;
            if (dist == 5) ok = ok && a * a + b * b >= 1 - 1e-5;
            if (!ok) code |= 1;
        }
        return code;
    });
}
}  // namespace capi

#define RSTR2(x) #x
#define RSTR(x) RSTR2(x)
#define CREGA(f, a) {RSTR(PFX) #f "." CSUF, capi::f<CT>, sim::A_CPP | (a)},
static const sim::OpInfo kit_table[] = {
CREGA(lange, sim::A_REJECT) CREGA(lansy, sim::A_REJECT) CREGA(lanhe, sim::A_REJECT) CREGA(lantr, sim::A_REJECT) CREGA(lacpy, sim::A_REJECT) CREGA(laset, sim::A_REJECT) CREGA(lascl, sim::A_REJECT)
CREGA(lassq, 0) CREGA(larfg, 0) CREGA(larf, sim::A_REJECT) CREGA(larft, sim::A_REJECT) CREGA(larfb, sim::A_REJECT) CREGA(geqr2, sim::A_REJECT) CREGA(ung2r, sim::A_REJECT) CREGA(unmqr, sim::A_REJECT)
CREGA(potrf, sim::A_REJECT) CREGA(potrs, sim::A_REJECT)
CREGA(larnv, sim::A_RNG)
CATALOGUE_END
