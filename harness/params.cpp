// Dumps the constants of one field (and of its extension and arithmetic parameters), and its Frobenius maps.
#ifndef NLB
#define NLB 1152
#endif
#include "common.hpp"
#ifdef PRE
#include PRE
#endif
#include <nil/crypto3/algebra/fields/detail/element/fp.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp4.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp12_2over3over2.hpp>
#include HDR
#ifdef EXT
#include EXT
#endif
#ifdef AP
#include AP
#endif
using namespace vch;
namespace alg = nil::crypto3::algebra;
namespace fields = nil::crypto3::algebra::fields;
typedef FIELD F;
typedef typename F::value_type E;
typedef mp::number<mp::backends::cpp_int_modular_backend<NLB>> W;
static const unsigned MAXV = 40;
// slot k: io[k] = number of values (0: absent), out[k*MAXV...]
struct Slot {
    Out o;
    i64 *n;
    u64 *base;
    explicit Slot(u64 *b, i64 *io, unsigned k) : o {b + (std::size_t)k * MAXV * (NLB / 64 + 1)}, n(io + k), base(b) { *n = 0; }
    template<class T>
    void put(const T &v) {
        if constexpr (std::is_integral<T>::value) {
            wrn(o, W((std::uint64_t)v));
            ++*n;
        } else if constexpr (is_num<T>::value) {
            wrn(o, W(v));
            ++*n;
        } else if constexpr (std::is_class<T>::value) {
            putc(v, 0);
        }
    }
    template<class T>
    auto putc(const T &v, int) -> decltype(v.data, void()) {
        if constexpr (rank_of<T>::value == 0) {
            wrn(o, W(typename F::integral_type(v.data)));
            ++*n;
        } else
            for (std::size_t i = 0; i < rank_of<T>::value; ++i)
                put(v.data[i]);
    }
    template<class T>
    auto putc(const T &v, long) -> decltype(v.size(), void()) {
        for (std::size_t i = 0; i < v.size(); ++i)
            put(v[i]);
    }
};
#define HAS(m) \
    template<class T, class = void> struct has_##m : std::false_type { }; \
    template<class T> struct has_##m<T, std::void_t<decltype(T::m)>> : std::true_type { };
#ifdef NO_GOMH
#define GOMH X(gomh_absent_)
#else
#define GOMH X(group_order_minus_one_half)
#endif
#define ITEMS X(modulus) GOMH X(modulus_bits) X(number_bits) X(value_bits) X(arity) X(s) X(t) X(t_minus_1_over_2) \
    X(arithmetic_generator) X(geometric_generator) X(multiplicative_generator) X(root_of_unity) X(nqr) X(nqr_to_t) X(Rsquared) X(Rcubed) X(group_order) \
    X(non_residue) X(Frobenius_coeffs_c1) X(Frobenius_coeffs_c2) X(q) X(p) X(generator) X(mul_generator)
#define X(m) HAS(m)
ITEMS
#undef X
template<class T>
void dump(u64 *out_, i64 *io) {
    unsigned k = 0;
#define X(m) { Slot s(out_, io, k); if constexpr (has_##m<T>::value) s.put(T::m); ++k; }
    ITEMS
#undef X
}
H(h_field) { dump<F>(out_, io); }
#ifdef EXTP
template<class T> struct ep { typedef typename T::extension_policy type; };
H(h_ext) { dump<typename ep<F>::type>(out_, io); }
H(h_frob) {
    HIO E a = rd<E>(in);
    wr(out, E(a.Frobenius_map((std::size_t)ii[0])));
}
H(h_mul) {
    HIO E a = rd<E>(in), b = rd<E>(in);
    wr(out, E(a * b));
}
#endif
#ifdef AP
H(h_ap) { dump<fields::arithmetic_params<F>>(out_, io); }
#endif
#if defined(EXTP) && defined(CYC)
H(h_cycsq) {
    HIO E a = rd<E>(in);
    wr(out, E(a.cyclotomic_squared()));
}
#endif
#ifdef ROOTS
typedef typename F::value_type RE;
H(h_root) {    // square root and square test of a square; the test of a given element
    HIO RE a = rd<RE>(in);
    RE q(a * a);
    wr(out, q);
    wr(out, q.sqrt());
    io[0] = q.is_square();
    io[1] = a.is_square();
}
#endif
