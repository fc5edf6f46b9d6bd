// Kit used by the operation catalogue (instrumented side).
#pragma once
#include <cmath>
#include <complex>
#include <cstring>
#include <new>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "simrt.hpp"
#ifdef KIT_EIGEN
#include <tlapack/plugins/eigen.hpp>
#endif
#include <tlapack/plugins/legacyArray.hpp>
#include <tlapack/plugins/stdvector.hpp>
#include <tlapack/base/utils.hpp>
#include <tlapack/base/workspace.hpp>
#include <tlapack/base/exceptionHandling.hpp>

namespace kit {
using namespace sim;
using idx = std::size_t;
using namespace tlapack;
#ifdef CL
constexpr Direction SVDIR = Layout::CL == Layout::RowMajor ? Direction::Backward : Direction::Forward;
#else
constexpr Direction SVDIR = Direction::Forward;
#endif

#ifdef KIT_EIGEN
// matrices of the Eigen library over the simulator's memory
template <class T, Layout L> using EMap = Eigen::Map<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, L == Layout::RowMajor ? Eigen::RowMajor : Eigen::ColMajor>, Eigen::Unaligned, Eigen::OuterStride<>>;
template <class T, Layout L> struct KMat : EMap<T, L> {
    idx m, n;
    T* ptr;
    idx ldim;
    KMat(idx m_, idx n_, T* p, idx ld) : EMap<T, L>(p, (Eigen::Index)m_, (Eigen::Index)n_, Eigen::OuterStride<>((Eigen::Index)ld)), m(m_), n(n_), ptr(p), ldim(ld) {}
    KMat(const KMat& o) : KMat(o.m, o.n, o.ptr, o.ldim) {}
};
#else
template <class T, Layout L> using KMat = LegacyMatrix<T, idx, L>;
#endif

template <class T> struct kindof { static constexpr char v = 'b'; };
template <> struct kindof<float> { static constexpr char v = 's'; };
#ifdef FNUM
template <> struct kindof<fnum::F> { static constexpr char v = 'd'; };
template <> struct kindof<std::complex<fnum::F>> { static constexpr char v = 'z'; };
#endif
template <> struct kindof<double> { static constexpr char v = 'd'; };
template <> struct kindof<std::complex<float>> { static constexpr char v = 'c'; };
template <> struct kindof<std::complex<double>> { static constexpr char v = 'z'; };
template <> struct kindof<int> { static constexpr char v = 'i'; };
template <> struct kindof<size_t> { static constexpr char v = 'l'; };
template <> struct kindof<int64_t> { static constexpr char v = 'l'; };

template <class T> struct isC : std::false_type {};
template <class R> struct isC<std::complex<R>> : std::true_type {};
template <class T> struct realOf { using type = T; };
template <class R> struct realOf<std::complex<R>> { using type = R; };
template <class T> using Re = typename realOf<T>::type;

enum class Tri { Full, Upper, Lower };

struct G {
    Build* b;
    Rng r;
    int size;
    int variant;
    bool twin;     // invalid variants: of the allocating twin
    int vmode = 0; // magnitude profile of the data
    G(Build* b_, const BuildParams* p) : b(b_), r(p->seed), size(p->size), variant(p->variant), twin(p->seed >> 7 & 1)
    {
        double u = r.unit();
        vmode = u < 0.7 ? 0 : u < 0.75 ? 1 : u < 0.80 ? 2 : u < 0.87 ? 3 : u < 0.93 ? 4 : 5;
    }
    template <class RT> double mag()
    {
        double x = 2 * r.unit() - 1;
        int big = sizeof(RT) == 4 ? 120 : 1000;
        switch (vmode) {
            case 1: return std::ldexp(x, big);
            case 2: return std::ldexp(x, -big);
            case 3: return std::ldexp(x, (int)r.below(41) - 20);
            case 4: { double u = r.unit(); return u < 0.1 ? 0 : std::ldexp(x, u < 0.4 ? (int)r.below(2 * big + 1) - big : (int)r.below(9) - 4); }
            case 5: return std::trunc(3 * x);
        }
        return x;
    }

    // ---- random parameters
    idx dim() // 0..size, small biased
    {
        if (r.chance(0.06)) return 0;
        return 1 + r.below((uint64_t)std::max(1, size));
    }
    idx dim1() { return 1 + r.below((uint64_t)std::max(1, size)); }
    idx dimr(idx lo, idx hi) { return hi <= lo ? lo : lo + r.below(hi - lo + 1); }
    bool flip(double p = 0.5) { return r.chance(p); }
    template <class X> X pick(std::initializer_list<X> l) { return l.begin()[r.below(l.size())]; }
    Op bop(int k, Op o) { return bad(k) ? (Op)'?' : o; }
    Uplo bup(int k, Uplo u) { return bad(k) ? (Uplo)'?' : u; }
    Side bsd(int k, Side u) { return bad(k) ? (Side)'?' : u; }
    Diag bdg(int k, Diag u) { return bad(k) ? (Diag)'?' : u; }
    Uplo uplo() { return flip() ? Uplo::Upper : Uplo::Lower; }
    Diag diag_() { return flip() ? Diag::NonUnit : Diag::Unit; }
    Side side() { return flip() ? Side::Left : Side::Right; }
    Op op3() { return pick({Op::NoTrans, Op::Trans, Op::ConjTrans}); }
    StoreV storev() { return flip() ? StoreV::Columnwise : StoreV::Rowwise; }
    Direction direction() { return flip() ? Direction::Forward : Direction::Backward; }
    idx nb() { return pick<idx>({1, 2, 3, 4, 5, 8, 32}); }
    template <class T, Layout L> void clsall(KMat<T, L>& A, int cls) { for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) setc(A, i, j, cls); }
    template <class T, Layout L> void zerocol(KMat<T, L>& A)
    {
        if (!A.m || !A.n) return;
        if (flip()) { idx j = r.below(A.n); for (idx i = 0; i < A.m; ++i) A(i, j) = T(0); }
        else { idx i = r.below(A.m); for (idx j = 0; j < A.n; ++j) A(i, j) = T(0); }
    }
    template <class T> T val()
    {
        if constexpr (isC<T>::value) { auto x = Re<T>(mag<Re<T>>()); auto y = Re<T>(mag<Re<T>>()); return T(x, y); }
        else return T(mag<T>());
    }
    template <class T> T scalar() // sometimes 0 / 1
    {
        double u = r.unit();
        if (u < 0.12) return T(0);
        if (u < 0.27) return T(1);
        return val<T>();
    }
    template <class T> T nzscalar() { return flip(0.2) ? T(1) : val<T>(); }

    // ---- operands
    template <class T, Layout L = Layout::ColMajor> KMat<T, L> mat(const char* name, idx m, idx n, int cls)
    {
        idx pad = r.below(4);
        idx lo = (L == Layout::ColMajor) ? m : n, hi = (L == Layout::ColMajor) ? n : m;
        idx ld = lo + pad; if (ld == 0) ld = 1;
        T* p = (T*)sim_operand(b, name, kindof<T>::v, sizeof(T), ld * hi, cls);
        for (idx j = 0; j < hi; ++j) {
            if (ld > lo) sim_setcls(b, p + lo + j * ld, (ld - lo) * sizeof(T), C_NOREF);
            if (cls == C_IN || cls == C_INOUT || cls == C_SCRATCH)
                for (idx i = 0; i < lo; ++i) p[i + j * ld] = val<T>();
        }
        return KMat<T, L>(m, n, p, ld);
    }
    template <class T, Layout L = Layout::ColMajor> KMat<T, L> matld(const char* name, idx m, idx n, idx ld, int cls)
    {
        idx lo = (L == Layout::ColMajor) ? m : n, hi = (L == Layout::ColMajor) ? n : m;
        T* p = (T*)sim_operand(b, name, kindof<T>::v, sizeof(T), ld * hi, cls);
        for (idx j = 0; j < hi; ++j) {
            if (ld > lo) sim_setcls(b, p + lo + j * ld, (ld - lo) * sizeof(T), C_NOREF);
            if (cls == C_IN || cls == C_INOUT || cls == C_SCRATCH)
                for (idx i = 0; i < lo; ++i) p[i + j * ld] = val<T>();
        }
        return KMat<T, L>(m, n, p, ld);
    }
    template <class T, Layout L> void setc(KMat<T, L>& A, idx i, idx j, int cls) { sim_setcls(b, &A(i, j), sizeof(T), cls); }
    template <class T, class I, Direction D> void setcv(LegacyVector<T, idx, I, D>& x, idx i, int cls) { sim_setcls(b, &x[i], sizeof(T), cls); }

    // keep only a triangle; other part becomes class `other`
    // k: diagonal offset (upper keeps j >= i+k ; lower keeps i >= j+k)
    template <class T, Layout L> void tri(KMat<T, L>& A, Uplo u, int other = C_NOREF, long k = 0)
    {
        if (u == Uplo::General) return;
        for (idx j = 0; j < A.n; ++j)
            for (idx i = 0; i < A.m; ++i) {
                bool keep = u == Uplo::Upper ? (long)j >= (long)i + k : (u == Uplo::Lower ? (long)i >= (long)j + k : (u == Uplo::UpperHessenberg ? (long)i <= (long)j + 1 : (long)j <= (long)i + 1));
                if (!keep) setc(A, i, j, other);
            }
    }
    template <class T, Layout L> void diagcls(KMat<T, L>& A, int cls)
    {
        for (idx i = 0; i < std::min(A.m, A.n); ++i) setc(A, i, i, cls);
    }
    // imaginary parts of the diagonal are not referenced (input)
    template <class T, Layout L> void imagdiag(KMat<T, L>& A, int cls)
    {
        if constexpr (isC<T>::value)
            for (idx i = 0; i < std::min(A.m, A.n); ++i) sim_setcls(b, (char*)&A(i, i) + sizeof(T) / 2, sizeof(T) / 2, cls);
    }
    template <class T, Layout L> void realdiag(KMat<T, L>& A)
    {
        if constexpr (isC<T>::value)
            for (idx i = 0; i < std::min(A.m, A.n); ++i) A(i, i) = T(std::real(A(i, i)));
    }
    // well conditioned triangular
    template <class T, Layout L> void domdiag(KMat<T, L>& A, double add = 2)
    {
        for (idx i = 0; i < std::min(A.m, A.n); ++i) A(i, i) += T(Re<T>(add + 0.25 * (i % 5)));
    }
    // small off diagonals (unit triangular solves)
    template <class T, Layout L> void scaleall(KMat<T, L>& A, double s)
    {
        for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) A(i, j) *= Re<T>(s);
    }
    // Hermitian positive definite contents
    template <class T, Layout L> void spd(KMat<T, L>& A)
    {
        idx n = std::min(A.m, A.n);
        for (idx j = 0; j < n; ++j) {
            for (idx i = 0; i < j; ++i) {
                if constexpr (isC<T>::value) A(j, i) = std::conj(A(i, j));
                else A(j, i) = A(i, j);
            }
            A(j, j) = T(Re<T>(n + 1 + 0.5 * (j % 3)));
        }
    }
    template <class T, Layout L> void herm(KMat<T, L>& A)
    {
        idx n = std::min(A.m, A.n);
        for (idx j = 0; j < n; ++j) {
            for (idx i = 0; i < j; ++i) {
                if constexpr (isC<T>::value) A(j, i) = std::conj(A(i, j));
                else A(j, i) = A(i, j);
            }
            if constexpr (isC<T>::value) A(j, j) = T(std::real(A(j, j)));
        }
    }
    template <class T, Layout L> void fillval(KMat<T, L>& A, T off, T dg)
    {
        for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) A(i, j) = (i == j) ? dg : off;
    }
    template <class T> LegacyVector<T, idx> vec(const char* name, idx n, int cls)
    {
        T* p = (T*)sim_operand(b, name, kindof<T>::v, sizeof(T), n, cls);
        if (cls == C_IN || cls == C_INOUT || cls == C_SCRATCH)
            for (idx i = 0; i < n; ++i) {
                if constexpr (std::is_integral_v<T>) p[i] = 0;
                else p[i] = val<T>();
            }
        return LegacyVector<T, idx>(n, p);
    }
    // strided vector, in the row-major configurations stored backwards
    template <class T> LegacyVector<T, idx, idx, SVDIR> svec(const char* name, idx n, int cls)
    {
        idx inc = flip() ? 1 : 2 + r.below(2);
        idx len = n ? 1 + (n - 1) * inc : 0;
        T* p = (T*)sim_operand(b, name, kindof<T>::v, sizeof(T), len, cls);
        for (idx i = 0; i < len; ++i)
            if (i % inc) sim_setcls(b, p + i, sizeof(T), C_NOREF);
            else if (cls == C_IN || cls == C_INOUT || cls == C_SCRATCH) {
                if constexpr (std::is_integral_v<T>) p[i] = 0;
                else p[i] = val<T>();
            }
        return LegacyVector<T, idx, idx, SVDIR>(n, p, inc);
    }
    template <class T> std::vector<T> copyvec(idx n) { return std::vector<T>(n); }
    // scalar output / inout cell
    template <class T> T& cell(const char* name, int cls)
    {
        T* p = (T*)sim_operand(b, name, kindof<T>::v, sizeof(T), 1, cls);
        if (cls == C_IN || cls == C_INOUT || cls == C_SCRATCH) { if constexpr (std::is_integral_v<T>) *p = 0; else *p = val<T>(); }
        return *p;
    }
    template <class T> T* raw(const char* name, idx n, int cls)
    {
        T* p = (T*)sim_operand(b, name, kindof<T>::v, sizeof(T), n, cls);
        if (cls == C_IN || cls == C_INOUT || cls == C_SCRATCH)
            for (idx i = 0; i < n; ++i) { if constexpr (std::is_integral_v<T>) p[i] = 0; else p[i] = val<T>(); }
        return p;
    }
    // invalid-call variants: variant 100+k violates precondition k
    bool bad(int k) { if (variant == 100 + k) { sim_flags(b, F_REJECT | F_NONAN); return true; } return false; }
    idx badd(int k) { return bad(k) ? 1 : 0; }
    void nan(int strong) { sim_flags(b, strong ? F_NANSTRONG : F_NONAN); }
    void weak() { sim_operand_flag(b, 1); } // last created operand: NaN has no guaranteed effect
    void flags(uint32_t f) { sim_flags(b, f); }

    // internal errors are reported by exception or by status only
    template <class O> void ecopts(O& o) { if (flip(0.4)) o.ec = NO_ERROR_CHECK; }

    // workspace of exactly the queried size
    template <class T, Layout L> KMat<T, L> work(const WorkInfo& w, const char* name = "work")
    {
        idx ld = (L == Layout::ColMajor) ? w.m : w.n;
        if (ld == 0) ld = 1;
        T* p = (T*)sim_operand(b, name, kindof<T>::v, sizeof(T), w.m * w.n, C_WORK);
        return KMat<T, L>(w.m, w.n, p, ld);
    }
    // variant 0: f with the workspace; variant 1: the allocating twin; invalid variants: either
    template <class T, Layout L, class FW, class FA> void pair_(const WorkInfo& w, FW&& fw, FA&& fa)
    {
        auto W = work<T, L>(w);
        if (variant == 1 || (variant >= 100 && twin)) call(std::forward<FA>(fa));
        else {
            sim_flags(b, F_NOALLOC);
            call([W, fw]() mutable { return fw(W); });
        }
    }
    template <class F> void call(F&& f)
    {
        using FF = std::decay_t<F>;
        void* p = sim_closure(b, sizeof(FF));
        new (p) FF(std::forward<F>(f));
        sim_call(b, [](void* q) -> int64_t {
            if constexpr (std::is_void_v<decltype((*(FF*)q)())>) { (*(FF*)q)(); return 0; }
            else return (int64_t)(*(FF*)q)();
        }, p, [](void* q) { ((FF*)q)->~FF(); });
    }
};

}  // namespace kit

#define OPF(fname) template <class T, tlapack::Layout L> static void fname(sim::Build* b_, const sim::BuildParams* p_)
#define BEGIN using namespace kit; using namespace tlapack; G g(b_, p_); using R = Re<T>; (void)sizeof(R); constexpr bool CX = isC<T>::value; (void)CX;

// registration: REG(op) registers op for the (type, layout) of the TU
#define CATALOGUE_BEGIN static const sim::OpInfo kit_table[] = {
#define REG(op, attr) {#op "." CSUF, op<CT, tlapack::Layout::CL>, (KITATTR) | (attr)},
#ifndef KITATTR
#define KITATTR sim::A_CPP
#endif
#ifndef CATFN
#define CATFN sim_catalogue
#endif
#define CATALOGUE_END }; extern "C" void CATFN(sim::Register r) { r(kit_table, (int)(sizeof kit_table / sizeof kit_table[0])); }
