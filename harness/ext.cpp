#include "absfield.hpp"
using namespace vch;
#ifndef FT
#define FT F2
#endif
typedef FT E;
H(h_ops) {
    HIO E a = rd<E>(in), b = rd<E>(in);
    wr(out, E(a + b));
    wr(out, E(a - b));
    wr(out, E(a * b));
    wr(out, E(-a));
    wr(out, E(a.doubled()));
    wr(out, E(a.squared()));
    E t(a);
    t += b;
    wr(out, t);
    t = a;
    t -= b;
    wr(out, t);
    t = a;
    t *= b;
    wr(out, t);
}
H(h_self) {    // aliased operands
    HIO E a = rd<E>(in);
    E t(a);
    t += t;
    wr(out, t);
    t = a;
    t -= t;
    wr(out, t);
    t = a;
    t *= t;
    wr(out, t);
    t = a;
    t = t;
    wr(out, t);
    wr(out, E(std::move(a)));
}
H(h_inv) {
    HIO E a = rd<E>(in);
    wr(out, a.inversed());
}
H(h_eq) {
    HIO E a = rd<E>(in), b = rd<E>(in);
    io[0] = a == b;
    io[1] = a != b;
    io[2] = a.is_zero();
    io[3] = a.is_one();
}
H(h_consts) {
    HIO wr(out, E::zero());
    wr(out, E::one());
}
H(h_pow) {
    HIO E a = rd<E>(in);
    typedef AF::integral_type I;
    I e = rd<I>(in);
    wr(out, E(a.pow(e)));
}
H(h_pow_int) {
    HIO E a = rd<E>(in);
    wr(out, E(a.pow((std::uint32_t)ii[0])));
}
typedef mp::number<mp::backends::cpp_int_modular_backend<1024>> BI;
H(h_powbig) {
    HIO E a = rd<E>(in);
    BI e;
    std::memcpy((void *)&e, (const void *)in.p, sizeof(BI));
    wr(out, E(a.pow(e)));
}
H(h_powull) {
    HIO E a = rd<E>(in);
    wr(out, E(a.pow((std::uint64_t)ii[0])));
}
#ifdef HAS_SCAL1    // multiplication by an element of the prime field
H(h_scal1) {
    HIO F1 k = rd<F1>(in);
    E a = rd<E>(in);
    wr(out, E(k * a));
    wr(out, E(a * k));
}
#endif
#ifdef HAS_SCAL2    // multiplication by an element of the quadratic subfield
H(h_scal2) {
    HIO F2 k = rd<F2>(in);
    E a = rd<E>(in);
    wr(out, E(k * a));
    wr(out, E(a * k));
}
#endif
#ifdef HAS_SCAL6
H(h_scal6) {
    HIO F6b k = rd<F6b>(in);
    E a = rd<E>(in);
    wr(out, E(k * a));
    wr(out, E(a * k));
}
#endif
#ifdef HAS_UNITARY
H(h_unitary) {
    HIO E a = rd<E>(in);
    wr(out, E(a.unitary_inversed()));
}
H(h_cycsq) {
    HIO E a = rd<E>(in);
    wr(out, E(a.cyclotomic_squared()));
}
H(h_cycexp) {
    HIO E a = rd<E>(in);
    typedef AF::integral_type I;
    I e = rd<I>(in);
    wr(out, E(a.cyclotomic_exp(e)));
}
#endif
#ifdef HAS_CYCEXP
H(h_cycexpbig) {
    HIO E a = rd<E>(in);
    BI e;
    std::memcpy((void *)&e, (const void *)in.p, sizeof(BI));
    wr(out, E(a.cyclotomic_exp(e)));
}
#endif
#ifdef HAS_FROB
H(h_frob) {
    HIO E a = rd<E>(in);
    wr(out, E(a.Frobenius_map((std::size_t)ii[0])));
}
#endif
#ifdef IS_F12
H(h_mul045) {
    HIO E a = rd<E>(in);
    F2 l0 = rd<F2>(in), lw = rd<F2>(in), lv = rd<F2>(in);
    wr(out, E(a.mul_by_045(l0, lw, lv)));
    wr(out, E(a.mul_by_024(l0, lw, lv)));
}
#endif
#ifdef IS_F4
H(h_mul023) {
    HIO E a = rd<E>(in), b = rd<E>(in);
    wr(out, E(a.mul_by_023(b)));
}
#endif
#ifdef IS_F6A
H(h_mul2345) {
    HIO E a = rd<E>(in), b = rd<E>(in);
    wr(out, E(a.mul_by_2345(b)));
}
#endif
#ifdef HAS_MNR
H(h_mnr) {
    HIO typedef typename E::underlying_type U;
    U a = rd<U>(in);
    wr(out, U(E().mul_by_non_residue(a)));
}
#endif
#ifdef IS_F2
H(h_fp2misc) {
    HIO E a = rd<E>(in);
    F1 b = rd<F1>(in);
    wr(out, E(a.mul_x()));
    wr(out, E(a.mul_xi()));
    wr(out, E(a.mul_Fp_0(b)));
    wr(out, E(a.mul_Fp_1(b)));
}
H(h_mkint) {
    HIO wr(out, E((int)ii[0], (int)ii[1]));
}
#endif
#ifdef IS_F1
H(h_fp) {
    HIO E a = rd<E>(in);
    E t(a);
    wr(out, E(++t));
    wr(out, t);
    wr(out, E(t++));
    wr(out, t);
    wr(out, E(--t));
    wr(out, t);
    wr(out, E(t--));
    wr(out, t);
}
H(h_fp_int) {    // conversions from machine integers
    HIO wr(out, E((unsigned long)ii[0]));
    wr(out, E((int)ii[1]));
    wr(out, E((unsigned char)ii[2]));
}
H(h_fp_big) {    // conversion from a big integer reduces modulo p
    HIO typedef mp::number<mp::backends::cpp_int_modular_backend<64>> I;
    I x = rd<I>(in);
    wr(out, E(x));
}
H(h_fp_cmp) {
    HIO E a = rd<E>(in), b = rd<E>(in);
    io[0] = a < b;
    io[1] = a > b;
    io[2] = a <= b;
    io[3] = a >= b;
}
H(h_fp_sqrt) {
    HIO E a = rd<E>(in);
    wr(out, E(a.sqrt()));
}
H(h_fp_issq) {
    HIO E a = rd<E>(in);
    io[0] = a.is_square();
}
#endif
