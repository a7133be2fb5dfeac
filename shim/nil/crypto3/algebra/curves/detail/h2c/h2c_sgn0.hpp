// The repository includes this header but does not contain it.  sgn0 of RFC 9380, 4.1.
#ifndef VERIF_SHIM_H2C_SGN0_HPP
#define VERIF_SHIM_H2C_SGN0_HPP
#include <nil/crypto3/algebra/fields/detail/element/fp.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp2.hpp>
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<typename P>
    bool sgn0(const fields::detail::element_fp<P> &e) {
        return boost::multiprecision::bit_test(e.data.template convert_to<typename P::integral_type>(), 0);
    }
    template<typename P>
    bool sgn0(const fields::detail::element_fp2<P> &e) {
        if (e.data[0].is_zero())
            return sgn0(e.data[1]);
        return sgn0(e.data[0]);
    }
}}}}}
#endif
