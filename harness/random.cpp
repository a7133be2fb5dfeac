// Random elements with a distribution and a generator that hand out given residues and record what they are asked for.
#include <iostream>
#include <boost/random/uniform_int_distribution.hpp>
#include "common.hpp"
#include <nil/crypto3/algebra/type_traits.hpp>
#ifdef GROUP
#include HDR
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
using namespace nil::crypto3::algebra;
typedef typename CURVE::scalar_field_type FIELD;
#elif defined(HDR)
#include HDR
#ifdef HDR2
#include HDR2
#endif
#endif
using namespace nil::crypto3::algebra;
template<class F, bool = F::arity == 1> struct prime_of { typedef F type; };
template<class F> struct prime_of<F, false> : prime_of<typename F::underlying_field_type> { };
typedef FIELD F;
typedef typename prime_of<F>::type B;
typedef typename B::integral_type N;
typedef typename B::value_type P;
struct Rng {
    typedef unsigned result_type;
    vch::In in;
    i64 drawn, low, high;
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return ~0u; }
    unsigned operator()() { ++drawn; return 0; }
};
struct Dist {
    bool low, high;
    Dist(const N &a, const N &b) : low(a == N(0u)), high(b + N(1u) == B::modulus) { }
    template<class G> N operator()(G &g) {
        ++g.drawn; g.low += low; g.high += high;
        return N(vch::rd<P>(g.in).data);
    }
};
namespace boost { namespace random {
    template<> class uniform_int_distribution<N> : public Dist {
    public:
        uniform_int_distribution(const N &a, const N &b) : Dist(a, b) { }
    };
}}
#include <nil/crypto3/algebra/random_element.hpp>
#define REC io[0] = g.drawn; io[1] = g.low; io[2] = g.high;
#ifdef GROUP
typedef GROUP G;
H(h_group) {
    HIO Rng g {in, 0, 0, 0};
    P s = rd<P>(in);
    auto r = random_element<G>(g);
    REC io[3] = r == s * G::value_type::one();
}
#else
H(h_rand) {
    HIO Rng g {in, 0, 0, 0};
    wr(out, random_element<F, Dist>(g));
    REC
}
H(h_default) {
    HIO Rng g {in, 0, 0, 0};
#ifdef EXTENDED
    typedef typename F::integral_type I;
    wr(out, random_element<F, boost::random::uniform_int_distribution<I>>(g));
#else
    wr(out, random_element<F>(g));
#endif
    REC
}
#endif
#if !defined(GROUP) && !defined(EXTENDED)
struct MC { typedef F scalar_field_type; };
struct MG {
    struct value_type {
        P v;
        static P gen;
        static value_type one() { return {gen}; }
        static value_type zero() { return {P::zero()}; }
        friend value_type operator*(const P &s, const value_type &p) { return {s * p.v}; }
        friend value_type operator*(const value_type &p, const P &s) { return {s * p.v}; }
    };
    typedef F field_type;
    typedef MC curve_type;
    static const std::size_t value_bits = 1;
};
P MG::value_type::gen;
H(h_mock) {
    HIO Rng g {in, 0, 0, 0};
    MG::value_type::gen = ((void)rd<P>(in), rd<P>(in));
    wr(out, random_element<MG>(g).v);
    REC
}
#endif
