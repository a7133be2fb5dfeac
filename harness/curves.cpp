// Group operations of every coordinate system, over an abstract field and symbolic curve constants.
// -DGT=<n> selects the representation; inputs and outputs are the coordinates in the order X Y [T] [Z].
#include "absfield.hpp"
#include <nil/crypto3/algebra/curves/forms.hpp>
using namespace vch;
namespace cv = nil::crypto3::algebra::curves;
namespace cd = cv::detail;
#define SW 0
#define TW 1
#define MO 2
#define ED 3
#if GT == 0
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#define FORM fo::short_weierstrass
#define CO co::affine
#define HAS_PROJ
#elif GT == 1
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#define FORM fo::short_weierstrass
#define CO co::jacobian
#define HAS_PROJ
#define HAS_AFF
#define HAS_MIXED
#define HAS_WF
#elif GT == 2
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#define FORM fo::short_weierstrass
#define CO co::jacobian_with_a4_0
#define HAS_PROJ
#define HAS_AFF
#define HAS_MIXED
#define HAS_WF
#elif GT == 3
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#define FORM fo::short_weierstrass
#define CO co::jacobian_with_a4_minus_3
#define HAS_PROJ
#define HAS_AFF
#define HAS_MIXED
#define HAS_WF
#elif GT == 4
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#define FORM fo::short_weierstrass
#define CO co::projective
#define HAS_AFF
#define HAS_MIXED
#define HAS_WF
#elif GT == 5
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp>
#define FORM fo::short_weierstrass
#define CO co::projective_with_a4_minus_3
#define HAS_AFF
#define HAS_MIXED
#define HAS_WF
#elif GT == 6
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>
#define FORM fo::twisted_edwards
#define CO co::affine
#define HAS_AFF
#define HAS_WF
#elif GT == 7
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#define FORM fo::twisted_edwards
#define CO co::extended_with_a_minus_1
#define HAS_AFF
#define HAS_MIXED
#define HAS_WF
#elif GT == 8
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#define FORM fo::twisted_edwards
#define CO co::inverted
#define HAS_AFF
#define HAS_MIXED
#define HAS_WF
#elif GT == 9
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#define FORM fo::montgomery
#define CO co::affine
#define HAS_AFF
#define HAS_WF
#elif GT == 10
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp>
#define FORM fo::edwards
#define CO co::inverted
#define HAS_MIXED
#define HAS_WF
#endif

namespace co = nil::crypto3::algebra::curves::coordinates;
typedef nil::crypto3::algebra::curves::forms fo;
struct CT;
template<class C, class Params, class Form>
struct Grp {
    typedef ::CT curve_type;
    typedef cd::curve_element<Params, Form, C> value_type;
    typedef Params params_type;
    typedef AF field_type;
    constexpr static const std::size_t value_bits = 64;
};
template<class Form>
struct Par {
    typedef AF field_type;
    typedef AF base_field_type;
    constexpr static const F1 a = fsym(S_A), b = fsym(S_B), d = fsym(S_D), A = fsym(S_A2), B = fsym(S_B2), c = fsym(S_A2 + 1);
    constexpr static const std::array<F1, 2> zero_fill = {F1(AF::integral_type(0u)), fsym(S_A2 + 3)};
    constexpr static const std::array<F1, 3> one_fill = {fsym(S_GX), fsym(S_GY), F1(AF::integral_type(1u))};
    template<class C>
    using group_type = Grp<C, Par<Form>, Form>;
};
struct EdPar {
    typedef AF field_type;
    constexpr static const F1 a = fsym(S_A), b = fsym(S_B), d = fsym(S_D), c = fsym(S_A2 + 1);
    constexpr static const std::array<F1, 3> zero_fill = {F1(AF::integral_type(1u)), F1(AF::integral_type(0u)), F1(AF::integral_type(0u))};
    constexpr static const std::array<F1, 3> one_fill = {fsym(S_GX), fsym(S_GY), F1(AF::integral_type(1u))};
    typedef EdPar affine_params;
    struct group_type {
        typedef CT curve_type;
        typedef cd::curve_element<EdPar, FORM, CO> value_type;
        typedef AF field_type;
        constexpr static const std::size_t value_bits = 64;
    };
};
struct CT {
    template<class C, class Form>
    struct g1_type {
        typedef Par<Form> params_type;
        typedef cd::curve_element<Par<Form>, Form, C> value_type;
    };
};
#if GT == 10
typedef cd::curve_element<EdPar, FORM, CO> G;
#else
typedef cd::curve_element<Par<FORM>, FORM, CO> G;
#endif

// ---- reading and writing points
template<class P, class = void>
struct has_z : std::false_type { };
template<class P>
struct has_z<P, std::void_t<decltype(std::declval<P>().Z)>> : std::true_type { };
template<class P, class = void>
struct has_t : std::false_type { };
template<class P>
struct has_t<P, std::void_t<decltype(std::declval<P>().T)>> : std::true_type { };
template<class P>
struct is_mont {
    static constexpr bool value = std::is_same<typename P::form, fo::montgomery>::value;
};
template<class P>
P rp(In &in, i64 inf) {
    F1 x = rd<F1>(in), y = rd<F1>(in);
    if (is_mont<P>::value && inf) {
        return P();
    }
    if constexpr (has_t<P>::value) {
        F1 t = rd<F1>(in), z = rd<F1>(in);
        return P(x, y, t, z);
    } else if constexpr (has_z<P>::value) {
        F1 z = rd<F1>(in);
        return P(x, y, z);
    } else
        return P(x, y);
}
template<class P>
void wp(Out &o, i64 *&io, const P &p) {
    if (is_mont<P>::value && p.is_zero()) {
        *io++ = 1;
        wr(o, F1::zero());
        wr(o, F1::zero());
        return;
    }
    *io++ = 0;
    wr(o, p.X);
    wr(o, p.Y);
    if constexpr (has_t<P>::value)
        wr(o, p.T);
    if constexpr (has_z<P>::value)
        wr(o, p.Z);
}
#define PA G a = rp<G>(in, ii[0]);
#define PB G b = rp<G>(in, ii[1]);
H(h_const) { HIO wp(out, io, G::zero()); wp(out, io, G::one()); G z; wp(out, io, z); }
H(h_add) { HIO PA PB G r = a + b; wp(out, io, r); wp(out, io, a); wp(out, io, b); }
H(h_addeq) { HIO PA PB a += b; wp(out, io, a); wp(out, io, b); }
H(h_sub) { HIO PA PB G r = a - b; wp(out, io, r); wp(out, io, a); wp(out, io, b); }
#if GT != 5
H(h_subeq) { HIO PA PB a -= b; wp(out, io, a); wp(out, io, b); }
H(h_subself) { HIO PA a -= a; wp(out, io, a); }
#endif
H(h_addself) { HIO PA a += a; wp(out, io, a); }
H(h_dbl) { HIO PA a.double_inplace(); wp(out, io, a); }
H(h_neg) { HIO PA G r = -a; wp(out, io, r); wp(out, io, a); }
H(h_cmp) { HIO PA PB io[0] = a == b; io[1] = a != b; io[2] = a.is_zero(); io[3] = b.is_zero(); }
H(h_copy) { HIO PA G b; b = a; G c(a); wp(out, io, b); wp(out, io, c); }
#ifdef HAS_MIXED
H(h_madd) { HIO PA PB a.mixed_add(b); wp(out, io, a); wp(out, io, b); }
#endif
#ifdef HAS_WF
H(h_wf) { HIO PA io[0] = a.is_well_formed(); io[1] = a.is_zero(); }
#endif
#ifdef HAS_AFF
H(h_aff) { HIO PA auto r = a.to_affine(); wp(out, io, r); }
#endif
#ifdef HAS_PROJ
H(h_proj) { HIO PA auto r = a.to_projective(); wp(out, io, r); }
#endif
#if GT == 6
H(h_inv) { HIO PA auto r = a.to_inverted(); wp(out, io, r); }
H(h_ext) { HIO PA auto r = a.to_extended_with_a_minus_1(); wp(out, io, r); }
H(h_mont) { HIO PA auto r = a.to_montgomery(); wp(out, io, r); }
H(h_mont_round) { HIO PA auto r = a.to_montgomery().to_twisted_edwards(); wp(out, io, r); }
#endif
#if GT == 8
H(h_from_aff) { HIO F1 x = rd<F1>(in), y = rd<F1>(in); G r(x, y); wp(out, io, r); }
#endif
#if GT == 9
H(h_tw) { HIO PA auto r = a.to_twisted_edwards(); wp(out, io, r); }
H(h_tw_round) { HIO PA auto r = a.to_twisted_edwards().to_montgomery(); wp(out, io, r); }
#endif
#ifdef SMUL    // scalar multiplication: integers of any width, scalar field elements, machine integers, on either side
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
namespace cdd = nil::crypto3::algebra::curves::detail;
typedef mp::number<mp::backends::cpp_int_modular_backend<1024>> BI;
template<class N>
N rbi(In &in) {
    N e;
    std::memcpy((void *)&e, (const void *)in.p, sizeof(N));
    in.p += sizeof(N) / 8;
    return e;
}
H(h_mul_big) { HIO PA BI n = rbi<BI>(in); G r = a * n; wp(out, io, r); }
H(h_big_mul) { HIO PA BI n = rbi<BI>(in); G r = n * a; wp(out, io, r); }
H(h_mul_fld) { HIO PA F1 n = rd<F1>(in); G r = a * n; wp(out, io, r); }
H(h_fld_mul) { HIO PA F1 n = rd<F1>(in); G r = n * a; wp(out, io, r); }
H(h_mul_modular) { HIO PA F1 n = rd<F1>(in); G r = a * n.data; wp(out, io, r); }
H(h_muleq) { HIO PA F1 n = rd<F1>(in); a *= n; wp(out, io, a); }
H(h_mul_sz) { HIO PA G r = a * (std::size_t)ii[1]; wp(out, io, r); }
H(h_sz_mul) { HIO PA G r = (std::size_t)ii[1] * a; wp(out, io, r); }
#if GT != 1 && GT != 5
H(h_ctor) { HIO BI n = rbi<BI>(in); G r(n); wp(out, io, r); }
#endif
#endif
