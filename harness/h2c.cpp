// Maps to the curves of hash-to-curve
#include <vector>
#include "absfield.hpp"
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/detail/h2c/h2c_m2c.hpp>
using namespace nil::crypto3::algebra;
typedef curves::bls12_381 K;
struct AG { };
struct AP {
    vch::F1 X, Y, Z;
    AP(const vch::F1 &x, const vch::F1 &y, const vch::F1 &z) : X(x), Y(y), Z(z) { }
};
namespace nil { namespace crypto3 { namespace algebra { namespace curves { namespace detail {
    template<>
    struct h2c_suite<AG> {    // any suite over a prime field
        typedef AP group_value_type;
        typedef vch::F1 field_value_type;
        typedef vch::AF::integral_type integral_type;
        constexpr static const field_value_type Ai = vch::fsym(vch::S_A);
        constexpr static const field_value_type Bi = vch::fsym(vch::S_B);
        constexpr static const field_value_type Z = vch::fsym(vch::S_D);
    };
}}}}}
namespace h = nil::crypto3::algebra::curves::detail;
template<class P>
void put_point(u64 *out_, const P &p) {
    vch::Out out {out_};
    wr(out, p.X);
    wr(out, p.Y);
    wr(out, p.Z);
}
template<class M, class E>
void run(const u64 *in_, u64 *out_) {
    vch::In in {in_};
    E u = rd<E>(in);
    put_point(out_, M::process(u));
}
template<class G>
void iso(const u64 *in_, u64 *out_) {
    vch::In in {in_};
    typedef typename G::value_type P;
    typedef typename P::field_type::value_type E;
    E x = rd<E>(in), y = rd<E>(in);
    put_point(out_, h::iso_map<G>::process(P(x, y, E::one())));
}
typedef K::g1_type<> G1;
typedef K::g2_type<> G2;
typedef G1::value_type::field_type::value_type E1;
typedef G2::value_type::field_type::value_type E2;
H(h_swu_abs) { run<h::m2c_simple_swu<AG>, vch::F1>(in_, out_); }
H(h_swu_g1) { run<h::m2c_simple_swu<G1>, E1>(in_, out_); }
H(h_swu_g2) { run<h::m2c_simple_swu<G2>, E2>(in_, out_); }
H(h_map_g1) { run<h::map_to_curve<G1>, E1>(in_, out_); }
H(h_map_g2) { run<h::map_to_curve<G2>, E2>(in_, out_); }
H(h_iso_g1) { iso<G1>(in_, out_); }
H(h_iso_g2) { iso<G2>(in_, out_); }
