// The repository includes this header but does not contain it.  Constants of RFC 9380, 8.8: BLS12381G1 and BLS12381G2, simplified SWU
// on the isogenous curves y^2 = x^3 + Ai x + Bi.
#ifndef VERIF_SHIM_H2C_SUITES_HPP
#define VERIF_SHIM_H2C_SUITES_HPP
#include <vector>
#include <nil/crypto3/algebra/curves/bls12.hpp>
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<typename GroupType>
    struct h2c_suite;

    template<>
    struct h2c_suite<typename bls12_381::g1_type<>> {
        typedef typename bls12_381::g1_type<> group_type;
        typedef typename group_type::value_type group_value_type;
        typedef typename group_value_type::field_type::value_type field_value_type;
        typedef typename group_value_type::field_type::integral_type integral_type;
        constexpr static const integral_type Ai_ =
            0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d_cppui_modular381;
        constexpr static const integral_type Bi_ =
            0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0_cppui_modular381;
        static inline const field_value_type Ai = field_value_type(Ai_);
        static inline const field_value_type Bi = field_value_type(Bi_);
        static inline const field_value_type Z = field_value_type(11u);
    };

    template<>
    struct h2c_suite<typename bls12_381::g2_type<>> {
        typedef typename bls12_381::g2_type<> group_type;
        typedef typename group_type::value_type group_value_type;
        typedef typename group_value_type::field_type::value_type field_value_type;
        typedef typename bls12_381::g1_type<>::value_type::field_type::integral_type integral_type;
        static inline const field_value_type Ai = field_value_type(0u, 240u);
        static inline const field_value_type Bi = field_value_type(1012u, 1012u);
        static inline const field_value_type Z = -field_value_type(2u, 1u);
    };
}}}}}
#endif
