// Entry points of the pairing policy of one curve, over the real types. No logic of its own.
#ifndef NLB
#define NLB 1152
#endif
#include "common.hpp"
#include <nil/crypto3/algebra/fields/detail/element/fp.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp4.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp12_2over3over2.hpp>
#include <boost/range/concepts.hpp>
#include HDR
using namespace vch;
namespace alg = nil::crypto3::algebra;
namespace curves = nil::crypto3::algebra::curves;
typedef CURVE C;
typedef alg::pairing::pairing_policy<C> PP;
typedef typename C::gt_type::value_type GT;
typedef typename C::template g1_type<>::value_type G1;
typedef typename C::template g2_type<>::value_type G2;
typedef typename C::template g1_type<>::field_type::value_type F1;
typedef typename C::template g2_type<>::field_type::value_type F2;
#ifdef P_FE
H(h_fe) { HIO wr(out, PP::final_exponentiation::process(rd<GT>(in))); }
#endif
#ifdef P_G1
H(h_g1) {
    HIO G1 p;
    p.X = rd<F1>(in); p.Y = rd<F1>(in); p.Z = rd<F1>(in);
    auto r = PP::precompute_g1::process(p);
#ifdef P_ED
    wr(out, r.P_XY); wr(out, r.P_XZ); wr(out, r.P_ZZplusYZ);
#else
    wr(out, r.PX); wr(out, r.PY);
#ifdef P_MNT
    wr(out, r.PX_twist); wr(out, r.PY_twist);
#endif
#endif
}
#endif
#ifdef P_G2
H(h_g2) {
    HIO G2 q;
    q.X = rd<F2>(in); q.Y = rd<F2>(in); q.Z = rd<F2>(in);
    auto r = PP::precompute_g2::process(q);
#ifdef P_ED
    io[0] = r.size();
    for (auto &c : r) { wr(out, c.c_ZZ); wr(out, c.c_XY); wr(out, c.c_XZ); }
#else
    wr(out, r.QX); wr(out, r.QY);
#ifdef P_MNT
    wr(out, r.QY2); wr(out, r.QX_over_twist); wr(out, r.QY_over_twist);
    io[0] = r.dbl_coeffs.size();
    io[1] = r.add_coeffs.size();
    for (auto &c : r.dbl_coeffs) { wr(out, c.c_H); wr(out, c.c_4C); wr(out, c.c_J); wr(out, c.c_L); }
    for (auto &c : r.add_coeffs) { wr(out, c.c_L1); wr(out, c.c_RZ); }
#else
    io[0] = r.coeffs.size();
    for (auto &c : r.coeffs) { wr(out, c.ell_0); wr(out, c.ell_VW); wr(out, c.ell_VV); }
#endif
#endif
}
#endif
#if defined(P_ML) || defined(P_EQ)
typedef typename PP::g1_precomputed_type T1;
typedef typename PP::g2_precomputed_type T2;
static T1 rd1(In &in) {
    T1 r;
#ifdef P_ED
    r.P_XY = rd<F1>(in); r.P_XZ = rd<F1>(in); r.P_ZZplusYZ = rd<F1>(in);
#else
    r.PX = rd<F1>(in); r.PY = rd<F1>(in);
#ifdef P_MNT
    r.PX_twist = rd<F2>(in); r.PY_twist = rd<F2>(in);
#endif
#endif
    return r;
}
static T2 rd2(In &in, const i64 *ii) {
    T2 r;
#ifdef P_ED
    r.resize(ii[0]);
    for (auto &c : r) { c.c_ZZ = rd<F2>(in); c.c_XY = rd<F2>(in); c.c_XZ = rd<F2>(in); }
#else
    r.QX = rd<F2>(in); r.QY = rd<F2>(in);
#ifdef P_MNT
    r.QY2 = rd<F2>(in); r.QX_over_twist = rd<F2>(in); r.QY_over_twist = rd<F2>(in);
    r.dbl_coeffs.resize(ii[0]);
    r.add_coeffs.resize(ii[1]);
    for (auto &c : r.dbl_coeffs) { c.c_H = rd<F2>(in); c.c_4C = rd<F2>(in); c.c_J = rd<F2>(in); c.c_L = rd<F2>(in); }
    for (auto &c : r.add_coeffs) { c.c_L1 = rd<F2>(in); c.c_RZ = rd<F2>(in); }
#else
    r.coeffs.resize(ii[0]);
    for (auto &c : r.coeffs) { c.ell_0 = rd<F2>(in); c.ell_VW = rd<F2>(in); c.ell_VV = rd<F2>(in); }
#endif
#endif
    return r;
}
#endif
#ifdef P_ML
H(h_ml) {
    HIO T1 a = rd1(in);
    T2 b = rd2(in, ii);
    wr(out, PP::miller_loop::process(a, b));
}
H(h_dml) {
    HIO T1 a = rd1(in);
    T2 b = rd2(in, ii);
    T1 c = rd1(in);
    T2 d = rd2(in, ii);
    wr(out, PP::double_miller_loop::process(a, b, c, d));
}
#endif
#ifdef P_EQ
H(h_eq1) { HIO T1 a = rd1(in), b = rd1(in); io[0] = a == b; }
H(h_eq2) { HIO T2 a = rd2(in, ii), b = rd2(in, ii + 2); io[0] = a == b; }
#endif
#ifdef P_BIL
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include <nil/crypto3/algebra/algorithms/pair.hpp>
typedef typename C::scalar_field_type::value_type S;
H(h_bil) {
    HIO S a = rd<S>(in), b = rd<S>(in);
    G1 p = G1::one(), q = p * a;
    G2 r = G2::one(), s = r * b;
    wr(out, alg::pair_reduced<C>(p, r));
    wr(out, alg::pair_reduced<C>(q, s));
    auto p1 = alg::precompute_g1<C>(p), q1 = alg::precompute_g1<C>(q);
    auto r1 = alg::precompute_g2<C>(r), s1 = alg::precompute_g2<C>(s);
    wr(out, alg::final_exponentiation<C>(alg::pair<C>(q, r)));
    wr(out, alg::final_exponentiation<C>(alg::miller_loop<C>(p1, s1)));
    wr(out, alg::final_exponentiation<C>(alg::double_miller_loop<C>(p1, r1, q1, s1)));
}
#endif
#ifdef P_PP
static const unsigned MAXV = 40;
struct Slot {
    Out o;
    i64 *n;
    typedef mp::number<mp::backends::cpp_int_modular_backend<NLB>> W;
    explicit Slot(u64 *b, i64 *io, unsigned k) : o {b + (std::size_t)k * MAXV * (NLB / 64 + 1)}, n(io + k) { *n = 0; }
    template<class T>
    void put(const T &v) {
        if constexpr (std::is_integral<T>::value) {
            wrn(o, W((std::uint64_t)v));
            ++*n;
        } else if constexpr (is_num<T>::value) {
            wrn(o, W(v));
            ++*n;
        } else if constexpr (rank_of<T>::value == 0) {
            wrn(o, W(typename T::field_type::integral_type(v.data)));
            ++*n;
        } else
            for (std::size_t i = 0; i < rank_of<T>::value; ++i)
                put(v.data[i]);
    }
};
#define HAS(m) \
    template<class T, class = void> struct has_##m : std::false_type { }; \
    template<class T> struct has_##m<T, std::void_t<decltype(T::m)>> : std::true_type { };
#define ITEMS X(integral_type_max_bits) X(ate_loop_count) X(ate_is_loop_count_neg) X(final_exponent) X(final_exponent_z) X(final_exponent_is_z_neg) \
    X(final_exponent_last_chunk_abs_of_w0) X(final_exponent_last_chunk_is_w0_neg) X(final_exponent_last_chunk_w1) X(twist) X(twist_coeff_a) X(twist_coeff_b) \
    X(a) X(b) X(d) X(modulus)
#define X(m) HAS(m)
ITEMS
#undef X
template<class T>
void dump(u64 *out_, i64 *io) {
    unsigned k = 0;
#define X(m) { Slot s(out_, io, k); if constexpr (has_##m<T>::value) s.put(T::m); ++k; }
    ITEMS
#undef X
}
H(h_pp) { dump<alg::pairing::detail::pairing_params<C>>(out_, io); }
H(h_p1) { dump<typename C::template g1_type<>::params_type>(out_, io); }
H(h_p2) { dump<typename C::template g2_type<>::params_type>(out_, io); }
H(h_base) { dump<typename C::base_field_type>(out_, io); }
H(h_scalar) { dump<typename C::scalar_field_type>(out_, io); }
#ifdef XIF
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
H(h_xi) { Slot s(out_, io, 0); s.put(nil::crypto3::algebra::fields::fp6_3over2<typename C::base_field_type>::value_type::non_residue); }
#endif
#endif
