// vectors and matrices of reals: flat arrays of doubles in and out
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <numeric>
#include <tuple>
#include "loopcontracts.hpp"
#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/scalar/math.hpp>
typedef std::int64_t i64;
typedef std::complex<double> cx;
#define H(name) extern "C" void name(const double *in, double *out, const i64 *ii, i64 *io)
namespace al = nil::crypto3::algebra;
// rationals, for native runs of the elimination without rounding
struct Rat {
    __int128 n, d;
    static __int128 g(__int128 a, __int128 b) {
        if (a < 0) a = -a;
        while (b) { __int128 t = a % b; a = b; b = t; }
        return a;
    }
    static Rat mk(__int128 n, __int128 d) {
        if (d < 0) { n = -n; d = -d; }
        __int128 k = g(n, d);
        if (k > 1) { n /= k; d /= k; }
        Rat r; r.n = n; r.d = d; return r;
    }
    Rat() : n(0), d(1) {}
    Rat(double x) : n(0), d(1) { while (x != std::floor(x)) { x *= 2; d *= 2; } n = (__int128)x; *this = mk(n, d); }
    Rat(int x) : n(x), d(1) {}
    Rat(unsigned x) : n(x), d(1) {}
    Rat(unsigned long x) : n((__int128)x), d(1) {}
    explicit operator double() const { return (double)n / (double)d; }
    friend Rat operator+(const Rat &a, const Rat &b) { return mk(a.n * b.d + b.n * a.d, a.d * b.d); }
    friend Rat operator-(const Rat &a, const Rat &b) { return mk(a.n * b.d - b.n * a.d, a.d * b.d); }
    friend Rat operator*(const Rat &a, const Rat &b) { return mk(a.n * b.n, a.d * b.d); }
    friend Rat operator/(const Rat &a, const Rat &b) { return mk(a.n * b.d, a.d * b.n); }
    Rat operator-() const { return mk(-n, d); }
    Rat &operator+=(const Rat &b) { return *this = *this + b; }
    Rat &operator-=(const Rat &b) { return *this = *this - b; }
    Rat &operator*=(const Rat &b) { return *this = *this * b; }
    Rat &operator/=(const Rat &b) { return *this = *this / b; }
    friend bool operator<(const Rat &a, const Rat &b) { return a.n * b.d < b.n * a.d; }
    friend bool operator>(const Rat &a, const Rat &b) { return b < a; }
    friend bool operator<=(const Rat &a, const Rat &b) { return !(b < a); }
    friend bool operator>=(const Rat &a, const Rat &b) { return !(a < b); }
    friend bool operator==(const Rat &a, const Rat &b) { return a.n == b.n && a.d == b.d; }
    friend bool operator!=(const Rat &a, const Rat &b) { return !(a == b); }
};
namespace std {
    template<>
    struct numeric_limits<Rat> {
        static const bool is_specialized = true;
        static Rat epsilon() { return Rat::mk(1, (__int128)1 << 30); }
    };
}
namespace {
    struct I { const double *p; };
    struct O { double *p; };
    template<class T> struct io1 {
        static T rd(I &i) { return T(*i.p++); }
        static void wr(O &o, const T &x) { *o.p++ = (double)x; }
    };
    template<> struct io1<cx> {
        static cx rd(I &i) { double a = *i.p++; double b = *i.p++; return cx(a, b); }
        static void wr(O &o, const cx &x) { *o.p++ = x.real(); *o.p++ = x.imag(); }
    };
    template<class T, std::size_t N> al::vector<T, N> rv(I &i) {
        al::vector<T, N> v = {};
        for (std::size_t k = 0; k < N; ++k) v[k] = io1<T>::rd(i);
        return v;
    }
    template<class T, std::size_t M, std::size_t N> al::matrix<T, M, N> rm(I &i) {
        al::matrix<T, M, N> m = {};
        for (std::size_t k = 0; k < M; ++k)
            for (std::size_t l = 0; l < N; ++l) m[k][l] = io1<T>::rd(i);
        return m;
    }
    template<class T> T rs(I &i) { return io1<T>::rd(i); }
    template<class T, std::size_t N> void w(O &o, const al::vector<T, N> &v) { for (std::size_t k = 0; k < N; ++k) io1<T>::wr(o, v[k]); }
    template<class T, std::size_t M, std::size_t N> void w(O &o, const al::matrix<T, M, N> &m) {
        for (std::size_t k = 0; k < M; ++k)
            for (std::size_t l = 0; l < N; ++l) io1<T>::wr(o, m[k][l]);
    }
    void w(O &o, double x) { *o.p++ = x; }
    void w(O &o, const cx &x) { io1<cx>::wr(o, x); }
    void w(O &o, const Rat &x) { io1<Rat>::wr(o, x); }
    void w(O &o, std::size_t x) { *o.p++ = (double)x; }
    template<class T, std::size_t N, std::size_t K, class Q> bool has(const al::vector<Q, K> &) { return std::is_same<T, Q>::value && N == K; }

    // ------------------------------------------------------------------ vectors
    template<class T, std::size_t N> void v_ops(I i, O o) {
        auto a = rv<T, N>(i), b = rv<T, N>(i);
        T s = rs<T>(i);
        w(o, a + b); w(o, a + s); w(o, s + a); w(o, a * s); w(o, s * a); w(o, a * b);
    }
    template<class T, std::size_t N> void v_div(I i, O o) {
        auto a = rv<T, N>(i), b = rv<T, N>(i);
        T s = rs<T>(i);
        w(o, s / b); w(o, a / b);
    }
    template<class T, std::size_t N> void v_eq(I i, i64 *io) {
        auto a = rv<T, N>(i), b = rv<T, N>(i);
        io[0] = a == b; io[1] = a != b;
    }
    template<class T, std::size_t N> void v_red(I i, O o) {
        auto a = rv<T, N>(i), b = rv<T, N>(i);
        w(o, al::dot(a, b)); w(o, al::sum(a)); w(o, al::conj(a)); w(o, al::real(a)); w(o, al::imag(a));
        w(o, al::accumulate(a, T(3.0), [](T x, T y) { return x * T(2.0) - y; }));
    }
    template<std::size_t N> void v_ext(I i, O o, i64 *io) {
        auto a = rv<double, N>(i);
        w(o, al::min(a)); w(o, al::max(a));
        io[0] = al::min_index(a); io[1] = al::max_index(a);
    }
    template<std::size_t N> void v_ext1(I i, O o, const i64 *ii, i64 *io) {
        auto a = rv<double, N>(i);
        if (ii[0]) { w(o, al::max(a)); io[0] = al::max_index(a); }
        else { w(o, al::min(a)); io[0] = al::min_index(a); }
    }
    template<std::size_t N> void v_abs(I i, O o) {
        auto a = rv<double, N>(i);
        w(o, al::abs(a));
    }
    template<std::size_t N> void v_roots(I i, O o) {
        auto a = rv<double, N>(i);
        auto z = rv<cx, N>(i);
        w(o, al::sqrt(a)); w(o, al::abs(z));
    }
    template<std::size_t N> void v_gen(I i, O o, const i64 *ii) {
        auto a = rv<double, N>(i), b = rv<double, N>(i), c = rv<double, N>(i);
        double s = rs<double>(i), t = rs<double>(i);
        w(o, al::fill<N>(s)); w(o, al::iota<N>(s));
        if constexpr (N > 1) w(o, al::linspace<N>(s, t));
        w(o, al::generate<N>([&](std::size_t k) { return a[k] * s + t; }));
        w(o, al::elementwise([](double x, double y, double z) { return x * y - z; }, a, b, c));
        w(o, al::elementwise([](double x) { return 3 * x + 1; }, a));
        w(o, al::cast<float>(a));
        int st = (int)ii[0];
        w(o, al::rotate(a, st));
        const auto &ca = a;
        for (auto q = ca.cbegin(); q != ca.cend(); ++q) w(o, *q);
        for (auto q = a.begin(); q != a.end(); ++q) w(o, *q);
        for (std::size_t k = 0; k < N; ++k) w(o, ca[k]);
        w(o, (std::size_t)a.size);
    }
    template<std::size_t N> void v_rot(I i, O o, const i64 *ii) {
        auto a = rv<double, N>(i);
        w(o, al::rotate(a, (int)ii[0]));
    }
    template<std::size_t M, std::size_t N> void v_sl(I i, O o) {
        auto a = rv<double, N>(i);
        w(o, al::slice<M>(a));
        for (std::size_t st = 0; st + M <= N; ++st) w(o, al::slice<M>(a, st));
    }
    template<std::size_t N, std::size_t M> void v_cat(I i, O o) {
        auto a = rv<double, N>(i);
        auto b = rv<double, M>(i);
        w(o, al::concat(a, b));
    }
    // ------------------------------------------------------------------ matrices
    template<class T, std::size_t M, std::size_t N> void m_ops(I i, O o) {
        auto a = rm<T, M, N>(i), b = rm<T, M, N>(i);
        T s = rs<T>(i);
        w(o, a + b); w(o, a + s); w(o, s + a); w(o, a * s); w(o, s * a); w(o, a * b);
    }
    template<class T, std::size_t M, std::size_t N> void m_div(I i, O o) {
        auto a = rm<T, M, N>(i), b = rm<T, M, N>(i);
        T s = rs<T>(i);
        w(o, s / b); w(o, a / b);
    }
    template<class T, std::size_t M, std::size_t N> void m_eq(I i, i64 *io) {
        auto a = rm<T, M, N>(i), b = rm<T, M, N>(i);
        io[0] = a == b; io[1] = a != b;
    }
    template<class T, std::size_t M, std::size_t N> void m_tr(I i, O o) {
        auto a = rm<T, M, N>(i);
        w(o, al::transpose(a)); w(o, al::conj(a)); w(o, al::hermitian(a)); w(o, al::real(a)); w(o, al::imag(a));
    }
    template<class T, std::size_t M, std::size_t N, std::size_t P> void m_mul(I i, O o) {
        auto a = rm<T, M, N>(i);
        auto b = rm<T, N, P>(i);
        w(o, al::matmul(a, b));
    }
    template<class T, std::size_t M, std::size_t N> void m_vec(I i, O o) {
        auto a = rm<T, M, N>(i);
        auto l = rv<T, M>(i);
        auto r = rv<T, N>(i);
        w(o, al::vectmatmul(l, a)); w(o, al::matvectmul(a, r));
    }
    template<std::size_t M, std::size_t N, std::size_t P, std::size_t Q> void m_kron(I i, O o) {
        auto a = rm<double, M, N>(i);
        auto b = rm<double, P, Q>(i);
        w(o, al::kron(a, b));
    }
    template<std::size_t M, std::size_t N> void m_norm(I i, O o) {
        auto a = rm<double, M, N>(i);
        w(o, al::macs(a)); w(o, al::mars(a));
    }
    template<class T, std::size_t M> void m_trace(I i, O o) {
        auto a = rm<T, M, M>(i);
        w(o, al::trace(a));
    }
    template<std::size_t M, std::size_t N> void m_ut(I i, O o, const i64 *ii) {
        auto a = rm<double, M, N>(i), b = rm<double, M, N>(i);
        double s = rs<double>(i);
        w(o, al::fill<M, N>(s));
        w(o, al::generate<M, N>([&](std::size_t k, std::size_t l) { return a[k][l] * s + b[k][l]; }));
        w(o, al::elementwise([](double x, double y) { return x - 2 * y; }, a, b));
        w(o, al::cast<float>(a));
        w(o, al::repmat<2, 3>(a));
        w(o, al::swaprow(a, (std::size_t)ii[0], (std::size_t)ii[1]));
        w(o, al::swapcol(a, (std::size_t)ii[2], (std::size_t)ii[3]));
        w(o, al::reshape<N, M>(a)); w(o, al::reshape<1, M * N>(a)); w(o, al::reshape<M * N, 1>(a));
        w(o, a.row(ii[0])); w(o, a.column(ii[2]));
        const auto &ca = a;
        w(o, ca[ii[0]][ii[2]]); w(o, a[ii[0]][ii[2]]);
        a[ii[0]][ii[2]] = s;
        w(o, a);
        w(o, (std::size_t)a.column_size); w(o, (std::size_t)a.row_size);
    }
    template<std::size_t M> void m_id(O o) {
        w(o, al::get_identity<double, M>()); w(o, al::identity<double, M>);
    }
    template<std::size_t N> void m_as(I i, O o) {
        auto a = rv<double, N>(i);
        w(o, al::as_column(a)); w(o, al::as_row(a));
    }
    template<std::size_t M, std::size_t N, std::size_t P> void m_cat(I i, O o) {
        auto a = rm<double, M, N>(i);
        auto b = rm<double, M, P>(i);
        w(o, al::horzcat(a, b));
        auto c = al::transpose(a);
        auto d = al::transpose(b);
        w(o, al::vertcat(c, d));
    }
    template<std::size_t P, std::size_t Q, std::size_t M, std::size_t N> void m_sub(I i, O o) {
        auto a = rm<double, M, N>(i);
        for (std::size_t k = 0; k + P <= M; ++k)
            for (std::size_t l = 0; l + Q <= N; ++l) w(o, al::submat<P, Q>(a, k, l));
    }
    // ------------------------------------------------------------------ elimination
    template<class T, std::size_t M, std::size_t N> void e_rref(I i, O o, i64 *io) {
        auto a = rm<T, M, N>(i);
        w(o, al::rref(a));
    }
    template<class T, std::size_t M, std::size_t N> void e_rreft(I i, O o, i64 *io) {
        auto a = rm<T, M, N>(i);
        T t = std::numeric_limits<T>::epsilon();
        w(o, al::rref(a, t));
    }
    template<class T, std::size_t M, std::size_t N> void e_rank(I i, O o, i64 *io) {
        auto a = rm<T, M, N>(i);
        io[0] = al::rank(a);
    }
    template<class T, std::size_t M> void e_det(I i, O o) {
        auto a = rm<T, M, M>(i);
        w(o, al::det(a));
    }
    template<class T, std::size_t M> void e_inv(I i, O o, i64 *io) {
        auto a = rm<T, M, M>(i);
        w(o, al::inverse(a));
    }
}
#define V1(X) X(1) X(2) X(3) X(4)
#define M2(X) X(1, 1) X(1, 2) X(1, 3) X(2, 1) X(2, 2) X(2, 3) X(3, 1) X(3, 2) X(3, 3) X(2, 4) X(4, 2) X(1, 4) X(4, 1) X(3, 4) X(4, 3) X(4, 4)
// larger shapes: a partial last block of an unrolled or tiled loop, sizes around powers of two
#define V2(X) X(5) X(6) X(7) X(8) X(9) X(16) X(17) X(33)
#define M3(X) X(5, 5) X(5, 2) X(2, 5) X(6, 7) X(7, 6) X(8, 8) X(9, 3) X(3, 9) X(1, 17) X(17, 1)
#define XV(N) \
H(v_ops_d_##N) { v_ops<double, N>({in}, {out}); } H(v_div_d_##N) { v_div<double, N>({in}, {out}); } \
H(v_eq_d_##N) { v_eq<double, N>({in}, io); } \
H(v_red_d_##N) { v_red<double, N>({in}, {out}); } H(v_ext_##N) { v_ext1<N>({in}, {out}, ii, io); } \
H(v_abs_##N) { v_abs<N>({in}, {out}); } H(v_gen_##N) { v_gen<N>({in}, {out}, ii); } H(v_rot_##N) { v_rot<N>({in}, {out}, ii); }
#define XM(M, N) \
H(m_ops_d_##M##_##N) { m_ops<double, M, N>({in}, {out}); } H(m_div_d_##M##_##N) { m_div<double, M, N>({in}, {out}); } \
H(m_eq_d_##M##_##N) { m_eq<double, M, N>({in}, io); } H(m_tr_d_##M##_##N) { m_tr<double, M, N>({in}, {out}); } \
H(m_vec_d_##M##_##N) { m_vec<double, M, N>({in}, {out}); } H(m_ut_##M##_##N) { m_ut<M, N>({in}, {out}, ii); }
#ifdef PART_L
V2(XV)
#define X(N) H(v_red_c_##N) { v_red<cx, N>({in}, {out}); } H(v_ops_c_##N) { v_ops<cx, N>({in}, {out}); } H(m_id_##N) { m_id<N>({out}); } H(m_as_##N) { m_as<N>({in}, {out}); } \
H(m_trace_d_##N) { m_trace<double, N>({in}, {out}); } H(m_trace_c_##N) { m_trace<cx, N>({in}, {out}); }
X(5) X(7) X(8) X(9) X(17)
#undef X
#define X(M, N) H(v_cat_##M##_##N) { v_cat<M, N>({in}, {out}); }
X(5, 3) X(3, 5) X(8, 9) X(1, 16)
#undef X
#define X(M, N) H(v_sl_##M##_##N) { v_sl<M, N>({in}, {out}); }
X(1, 5) X(4, 5) X(5, 8) X(7, 9) X(8, 17) X(16, 17)
#undef X
#endif
#ifdef PART_K
M3(XM)
#define X(M, N) H(m_tr_c_##M##_##N) { m_tr<cx, M, N>({in}, {out}); } H(m_ops_c_##M##_##N) { m_ops<cx, M, N>({in}, {out}); } H(m_vec_c_##M##_##N) { m_vec<cx, M, N>({in}, {out}); }
X(4, 4) X(5, 6)
#undef X
#define X(M, N, P) H(m_mul_d_##M##_##N##_##P) { m_mul<double, M, N, P>({in}, {out}); }
X(5, 5, 5) X(5, 6, 7) X(8, 8, 8) X(1, 9, 1) X(9, 1, 9) X(3, 17, 2)
#undef X
#define X(M, N, P, Q) H(m_kron_##M##_##N##_##P##_##Q) { m_kron<M, N, P, Q>({in}, {out}); }
X(5, 2, 2, 5) X(1, 7, 6, 1) X(4, 4, 3, 3)
#undef X
#define X(M, N, P) H(m_cat_##M##_##N##_##P) { m_cat<M, N, P>({in}, {out}); }
X(5, 3, 5) X(6, 7, 1) X(8, 8, 9)
#undef X
#define X(P, Q, M, N) H(m_sub_##P##_##Q##_##M##_##N) { m_sub<P, Q, M, N>({in}, {out}); }
X(4, 5, 5, 7) X(5, 4, 8, 8) X(1, 8, 8, 9)
#undef X
H(m_mul_c_5_4_5) { m_mul<cx, 5, 4, 5>({in}, {out}); }
#endif
#ifdef PART_V
#define X(N) \
H(v_ops_d_##N) { v_ops<double, N>({in}, {out}); } H(v_ops_c_##N) { v_ops<cx, N>({in}, {out}); } H(v_div_d_##N) { v_div<double, N>({in}, {out}); } \
H(v_eq_d_##N) { v_eq<double, N>({in}, io); } H(v_eq_c_##N) { v_eq<cx, N>({in}, io); } \
H(v_red_d_##N) { v_red<double, N>({in}, {out}); } H(v_red_c_##N) { v_red<cx, N>({in}, {out}); } H(v_ext_##N) { v_ext<N>({in}, {out}, io); } \
H(v_abs_##N) { v_abs<N>({in}, {out}); } H(v_gen_##N) { v_gen<N>({in}, {out}, ii); } H(v_rot_##N) { v_rot<N>({in}, {out}, ii); } H(v_roots_##N) { v_roots<N>({in}, {out}); }
V1(X)
#undef X
#define X(M, N) H(v_cat_##M##_##N) { v_cat<M, N>({in}, {out}); }
M2(X)
#undef X
#define X(M, N) H(v_sl_##M##_##N) { v_sl<M, N>({in}, {out}); }
X(1, 1) X(1, 2) X(2, 2) X(1, 3) X(2, 3) X(3, 3) X(1, 4) X(2, 4) X(3, 4) X(4, 4)
#undef X
H(v_make) {
    auto a = al::make_vector(in[0], in[1], in[2]);
    al::vector b {in[0], in[1]};
    al::vector c {{in[0], in[1], in[2], in[3]}};
    O o {out};
    w(o, a); w(o, b); w(o, c);
}
#endif
#ifdef PART_M
#define X(M, N) \
H(m_ops_d_##M##_##N) { m_ops<double, M, N>({in}, {out}); } H(m_div_d_##M##_##N) { m_div<double, M, N>({in}, {out}); } \
H(m_eq_d_##M##_##N) { m_eq<double, M, N>({in}, io); } H(m_tr_d_##M##_##N) { m_tr<double, M, N>({in}, {out}); } \
H(m_vec_d_##M##_##N) { m_vec<double, M, N>({in}, {out}); }
M2(X)
#undef X
#define X(M, N) H(m_ops_c_##M##_##N) { m_ops<cx, M, N>({in}, {out}); } H(m_eq_c_##M##_##N) { m_eq<cx, M, N>({in}, io); } \
H(m_tr_c_##M##_##N) { m_tr<cx, M, N>({in}, {out}); } H(m_vec_c_##M##_##N) { m_vec<cx, M, N>({in}, {out}); } H(m_norm_##M##_##N) { m_norm<M, N>({in}, {out}); }
X(1, 1) X(2, 2) X(1, 3) X(3, 1) X(2, 3) X(3, 2)
#undef X
#define X(M, N, P) H(m_mul_d_##M##_##N##_##P) { m_mul<double, M, N, P>({in}, {out}); }
X(1, 1, 1) X(1, 1, 2) X(1, 2, 1) X(2, 1, 1) X(2, 1, 2) X(1, 2, 3) X(3, 2, 1) X(2, 3, 2) X(2, 2, 2) X(2, 2, 3) X(3, 2, 2) X(2, 3, 4) X(4, 3, 2) X(3, 3, 3) X(3, 4, 2) X(4, 4, 4)
#undef X
H(m_mul_c_2_3_2) { m_mul<cx, 2, 3, 2>({in}, {out}); }
#define X(M, N, P, Q) H(m_kron_##M##_##N##_##P##_##Q) { m_kron<M, N, P, Q>({in}, {out}); }
X(1, 1, 1, 1) X(1, 2, 3, 1) X(2, 1, 1, 3) X(2, 2, 2, 2) X(2, 3, 3, 2) X(3, 2, 2, 3) X(1, 3, 2, 2) X(3, 3, 2, 4)
#undef X
#define X(M) H(m_trace_d_##M) { m_trace<double, M>({in}, {out}); } H(m_trace_c_##M) { m_trace<cx, M>({in}, {out}); }
V1(X)
#undef X
#endif
#ifdef PART_U
#define X(M, N) H(m_ut_##M##_##N) { m_ut<M, N>({in}, {out}, ii); }
M2(X)
#undef X
#define X(N) H(m_id_##N) { m_id<N>({out}); } H(m_as_##N) { m_as<N>({in}, {out}); }
V1(X)
#undef X
#define X(M, N, P) H(m_cat_##M##_##N##_##P) { m_cat<M, N, P>({in}, {out}); }
X(1, 1, 1) X(1, 2, 3) X(2, 1, 2) X(2, 2, 1) X(3, 2, 2) X(3, 1, 3) X(2, 3, 3) X(4, 2, 1)
#undef X
#define X(P, Q, M, N) H(m_sub_##P##_##Q##_##M##_##N) { m_sub<P, Q, M, N>({in}, {out}); }
X(1, 1, 1, 1) X(1, 1, 2, 3) X(2, 1, 3, 2) X(1, 2, 3, 3) X(2, 2, 3, 4) X(2, 3, 3, 4) X(3, 2, 4, 3) X(3, 3, 4, 4)
#undef X
#endif
#ifdef PART_E
#define X(M, N) H(e_rref_d_##M##_##N) { e_rref<double, M, N>({in}, {out}, io); } H(e_rref_q_##M##_##N) { e_rref<Rat, M, N>({in}, {out}, io); } \
H(e_rreft_d_##M##_##N) { e_rreft<double, M, N>({in}, {out}, io); } H(e_rreft_q_##M##_##N) { e_rreft<Rat, M, N>({in}, {out}, io); } \
H(e_rank_d_##M##_##N) { e_rank<double, M, N>({in}, {out}, io); } H(e_rank_q_##M##_##N) { e_rank<Rat, M, N>({in}, {out}, io); }
M2(X)
#undef X
#define X(M) H(e_det_d_##M) { e_det<double, M>({in}, {out}); } H(e_det_q_##M) { e_det<Rat, M>({in}, {out}); } \
H(e_inv_d_##M) { e_inv<double, M>({in}, {out}, io); } H(e_inv_q_##M) { e_inv<Rat, M>({in}, {out}, io); }
V1(X)
#undef X
// the inverse of a singular matrix is refused
#define X(M) H(e_invq_##M) { try { e_inv<Rat, M>({in}, {out}, io); io[0] = 1; } catch (const char *) { io[0] = 0; } }
V1(X)
#undef X
#define X(M, N) H(e_rref_d_##M##_##N) { e_rref<double, M, N>({in}, {out}, io); } H(e_rref_q_##M##_##N) { e_rref<Rat, M, N>({in}, {out}, io); } \
H(e_rreft_d_##M##_##N) { e_rreft<double, M, N>({in}, {out}, io); } H(e_rreft_q_##M##_##N) { e_rreft<Rat, M, N>({in}, {out}, io); } \
H(e_rank_d_##M##_##N) { e_rank<double, M, N>({in}, {out}, io); } H(e_rank_q_##M##_##N) { e_rank<Rat, M, N>({in}, {out}, io); }
X(5, 5) X(5, 6) X(6, 5) X(2, 6) X(6, 2)
#undef X
#define X(M) H(e_det_d_##M) { e_det<double, M>({in}, {out}); } H(e_det_q_##M) { e_det<Rat, M>({in}, {out}); } \
H(e_inv_d_##M) { e_inv<double, M>({in}, {out}, io); } H(e_inv_q_##M) { e_inv<Rat, M>({in}, {out}, io); }
X(5) X(6)
#undef X
#endif
#ifdef PART_S
H(s_exp) { out[0] = al::exponentiate(in[0], (int)ii[0]); }
H(s_abs) { out[0] = al::abs(in[0]); }
H(s_absi) { io[0] = al::abs((int)ii[0]); io[1] = al::abs((long)ii[1]); }
H(s_absc) { out[0] = al::abs(cx(in[0], in[1])); }
H(s_conj) { out[0] = al::conj(in[0]); cx z = al::conj(cx(in[0], in[1])); out[1] = z.real(); out[2] = z.imag(); }
H(s_sqrt) { out[0] = al::sqrt(in[0]); }
H(s_sqrtf) { out[0] = al::sqrt((float)in[0]); }
H(s_root) { out[0] = al::nthroot(in[0], (int)ii[0]); }
#endif
