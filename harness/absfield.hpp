// Extension towers over an abstract prime field: the modulus and every tower constant are named symbols.
#ifndef VCH_ABSFIELD_HPP
#define VCH_ABSFIELD_HPP
#include "common.hpp"
#include <nil/crypto3/algebra/fields/field.hpp>
#include <nil/crypto3/algebra/fields/params.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp4.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp12_2over3over2.hpp>

namespace vch {
    namespace fd = nil::crypto3::algebra::fields::detail;
    enum { S_P = 0, S_NR = 1, S_NR3 = 2, S_XI0 = 3, S_XI1 = 4, S_HALF = 5, S_A = 6, S_B = 7, S_D = 8, S_A2 = 9, S_B2 = 11, S_GX = 13, S_GY = 14, S_FC = 20, S_TH = 80, S_NQR = 81 };

    // ---- prime field
    struct AF {
        static constexpr std::size_t modulus_bits = 64, number_bits = 64, value_bits = 64, arity = 1;
        typedef mp::number<mp::backends::cpp_int_modular_backend<64>> integral_type;
        typedef mp::number<mp::backends::cpp_int_modular_backend<1024>> extended_integral_type;
        typedef mp::backends::cpp_int_modular_backend<64> modular_backend;
        typedef mp::backends::modular_params<modular_backend> modular_params_type;
        constexpr static const integral_type modulus = integral_type::symbol(S_P);
        constexpr static const integral_type group_order_minus_one_half = integral_type::symbol(S_HALF);
        constexpr static const modular_params_type modulus_params = modulus.backend();
        typedef mp::number<mp::backends::modular_adaptor<modular_backend, mp::backends::modular_params_ct<modular_backend, modulus_params>>> modular_type;
        struct P {
            typedef AF field_type;
            typedef AF::integral_type integral_type;
            typedef AF::extended_integral_type extended_integral_type;
            typedef AF::modular_type modular_type;
            typedef AF::modular_backend modular_backend;
            typedef AF::modular_params_type modular_params_type;
            static constexpr std::size_t modulus_bits = 64, number_bits = 64;
            constexpr static const integral_type modulus = AF::modulus;
            constexpr static const integral_type group_order_minus_one_half = AF::group_order_minus_one_half;
            constexpr static const modular_params_type modulus_params = AF::modulus_params;
        };
        typedef fd::element_fp<P> value_type;
    };
    typedef AF::value_type F1;
    constexpr F1 fsym(unsigned i) {
        return F1(AF::modular_type::symbol(i));
    }
    // ---- quadratic / cubic extensions of the prime field
    template<class Self>
    struct fbase {
        typedef AF::integral_type integral_type;
        typedef AF::extended_integral_type extended_integral_type;
        typedef AF::modular_type modular_type;
        typedef AF::modular_backend modular_backend;
        static constexpr std::size_t modulus_bits = 64, number_bits = 64;
        constexpr static const integral_type modulus = AF::modulus;
    };
    struct AF2;
    struct E2P : fbase<E2P> {
        typedef AF2 field_type;
        typedef AF base_field_type;
        typedef AF underlying_field_type;
        typedef AF non_residue_field_type;
        typedef F1 non_residue_type;
        typedef F1 underlying_type;
        constexpr static const F1 non_residue = fsym(S_NR);
        constexpr static const std::array<integral_type, 2> Frobenius_coeffs_c1 = {integral_type::symbol(S_FC), integral_type::symbol(S_FC + 1)};
        static inline std::size_t s = 2;
        constexpr static const std::array<integral_type, 2> nqr_to_t = {integral_type::symbol(S_NQR), integral_type::symbol(S_NQR + 1)};
        constexpr static const integral_type t_minus_1_over_2 = integral_type::symbol(S_TH);
        constexpr static const integral_type group_order_minus_one_half = integral_type::symbol(S_HALF);
    };
    struct AF2 : fbase<AF2> {
        typedef AF base_field_type;
        typedef AF underlying_field_type;
        typedef E2P extension_policy;
        static constexpr std::size_t arity = 2, value_bits = 128;
        typedef fd::element_fp2<E2P> value_type;
    };
    typedef AF2::value_type F2;
    struct AF3;
    struct E3P : fbase<E3P> {
        typedef AF3 field_type;
        typedef AF underlying_field_type;
        typedef F1 non_residue_type;
        typedef F1 underlying_type;
        constexpr static const F1 non_residue = fsym(S_NR);
        constexpr static const std::array<integral_type, 3> Frobenius_coeffs_c1 = {integral_type::symbol(S_FC), integral_type::symbol(S_FC + 1), integral_type::symbol(S_FC + 2)};
        constexpr static const std::array<integral_type, 3> Frobenius_coeffs_c2 = {integral_type::symbol(S_FC + 3), integral_type::symbol(S_FC + 4), integral_type::symbol(S_FC + 5)};
        static inline std::size_t s = 2;
        constexpr static const std::array<integral_type, 3> nqr_to_t = {integral_type::symbol(S_NQR), integral_type::symbol(S_NQR + 1), integral_type::symbol(S_NQR + 2)};
        constexpr static const integral_type t_minus_1_over_2 = integral_type::symbol(S_TH);
        constexpr static const integral_type group_order_minus_one_half = integral_type::symbol(S_HALF);
    };
    struct AF3 : fbase<AF3> {
        typedef AF base_field_type;
        typedef AF underlying_field_type;
        typedef E3P extension_policy;
        static constexpr std::size_t arity = 3, value_bits = 192;
        typedef fd::element_fp3<E3P> value_type;
    };
    typedef AF3::value_type F3;
    // ---- towers
    struct AF4;
    struct E4P : fbase<E4P> {
        typedef AF4 field_type;
        typedef AF2 underlying_field_type;
        typedef F1 non_residue_type;
        typedef F2 underlying_type;
        constexpr static const F1 non_residue = fsym(S_NR);
        constexpr static const std::array<integral_type, 4> Frobenius_coeffs_c1 = {integral_type::symbol(S_FC + 10), integral_type::symbol(S_FC + 11), integral_type::symbol(S_FC + 12), integral_type::symbol(S_FC + 13)};
    };
    struct AF4 : fbase<AF4> {
        typedef E4P extension_policy;
        typedef AF2 underlying_field_type;
        static constexpr std::size_t arity = 4;
        typedef fd::element_fp4<E4P> value_type;
    };
    typedef AF4::value_type F4;
    struct AF6a;    // 2 over 3
    struct E6aP : fbase<E6aP> {
        typedef AF6a field_type;
        typedef AF3 underlying_field_type;
        typedef F1 non_residue_type;
        typedef F3 underlying_type;
        constexpr static const F1 non_residue = fsym(S_NR);
        constexpr static const std::array<integral_type, 6> Frobenius_coeffs_c1 = {integral_type::symbol(S_FC + 10), integral_type::symbol(S_FC + 11), integral_type::symbol(S_FC + 12), integral_type::symbol(S_FC + 13), integral_type::symbol(S_FC + 14), integral_type::symbol(S_FC + 15)};
    };
    struct AF6a : fbase<AF6a> {
        typedef E6aP extension_policy;
        typedef AF3 underlying_field_type;
        static constexpr std::size_t arity = 6;
        typedef fd::element_fp6_2over3<E6aP> value_type;
    };
    typedef AF6a::value_type F6a;
    struct AF6b;    // 3 over 2
    struct E6bP : fbase<E6bP> {
        typedef AF6b field_type;
        typedef AF2 underlying_field_type;
        typedef F2 non_residue_type;
        typedef F2 underlying_type;
        constexpr static const F2 non_residue = F2(fsym(S_XI0), fsym(S_XI1));
        constexpr static const std::array<integral_type, 12> Frobenius_coeffs_c1 = {
            integral_type::symbol(S_FC + 10), integral_type::symbol(S_FC + 11), integral_type::symbol(S_FC + 12), integral_type::symbol(S_FC + 13),
            integral_type::symbol(S_FC + 14), integral_type::symbol(S_FC + 15), integral_type::symbol(S_FC + 16), integral_type::symbol(S_FC + 17),
            integral_type::symbol(S_FC + 18), integral_type::symbol(S_FC + 19), integral_type::symbol(S_FC + 20), integral_type::symbol(S_FC + 21)};
        constexpr static const std::array<integral_type, 12> Frobenius_coeffs_c2 = {
            integral_type::symbol(S_FC + 22), integral_type::symbol(S_FC + 23), integral_type::symbol(S_FC + 24), integral_type::symbol(S_FC + 25),
            integral_type::symbol(S_FC + 26), integral_type::symbol(S_FC + 27), integral_type::symbol(S_FC + 28), integral_type::symbol(S_FC + 29),
            integral_type::symbol(S_FC + 30), integral_type::symbol(S_FC + 31), integral_type::symbol(S_FC + 32), integral_type::symbol(S_FC + 33)};
    };
    struct AF6b : fbase<AF6b> {
        typedef E6bP extension_policy;
        typedef AF2 underlying_field_type;
        static constexpr std::size_t arity = 6;
        typedef fd::element_fp6_3over2<E6bP> value_type;
    };
    typedef AF6b::value_type F6b;
    struct AF12;
    struct E12P : fbase<E12P> {
        typedef AF12 field_type;
        typedef AF6b underlying_field_type;
        typedef F2 non_residue_type;
        typedef F6b underlying_type;
        constexpr static const F2 non_residue = F2(fsym(S_XI0), fsym(S_XI1));
        constexpr static const std::array<integral_type, 24> Frobenius_coeffs_c1 = {
            integral_type::symbol(S_FC + 34), integral_type::symbol(S_FC + 35), integral_type::symbol(S_FC + 36), integral_type::symbol(S_FC + 37),
            integral_type::symbol(S_FC + 38), integral_type::symbol(S_FC + 39), integral_type::symbol(S_FC + 40), integral_type::symbol(S_FC + 41),
            integral_type::symbol(S_FC + 42), integral_type::symbol(S_FC + 43), integral_type::symbol(S_FC + 44), integral_type::symbol(S_FC + 45),
            integral_type::symbol(S_FC + 46), integral_type::symbol(S_FC + 47), integral_type::symbol(S_FC + 48), integral_type::symbol(S_FC + 49),
            integral_type::symbol(S_FC + 50), integral_type::symbol(S_FC + 51), integral_type::symbol(S_FC + 52), integral_type::symbol(S_FC + 53),
            integral_type::symbol(S_FC + 54), integral_type::symbol(S_FC + 55), integral_type::symbol(S_FC + 56), integral_type::symbol(S_FC + 57)};
    };
    struct AF12 : fbase<AF12> {
        typedef E12P extension_policy;
        typedef AF6b underlying_field_type;
        static constexpr std::size_t arity = 12;
        typedef fd::element_fp12_2over3over2<E12P> value_type;
    };
    typedef AF12::value_type F12;
}    // namespace vch
#endif
