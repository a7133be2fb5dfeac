// The public pairing functions over a mock curve and a mock policy: every operation is a different polynomial
// (the double loop the product of two loops and the final exponentiation a power, as in every policy).
#include "absfield.hpp"
#include <nil/crypto3/algebra/algorithms/pair.hpp>
using namespace vch;
namespace alg = nil::crypto3::algebra;
struct MF { typedef F1 value_type; };
struct MC {
    struct aff { };
    template<class Form = aff, class Coords = aff> struct g1_type { typedef F1 value_type; typedef MF field_type; };
    template<class Form = aff, class Coords = aff> struct g2_type { typedef F1 value_type; typedef MF field_type; };
    typedef MF gt_type;
    typedef MF base_field_type;
};
static F1 n(unsigned k) { return F1(AF::integral_type(k)); }
struct MP {
    struct T1 { F1 v; bool operator==(const T1 &o) const { return v == o.v; } bool operator!=(const T1 &o) const { return v != o.v; } };
    struct T2 { F1 v; bool operator==(const T2 &o) const { return v == o.v; } bool operator!=(const T2 &o) const { return v != o.v; } };
    typedef T1 g1_precomputed_type;
    typedef T2 g2_precomputed_type;
    struct precompute_g1 { typedef T1 g1_precomputed_type; static T1 process(const F1 &x) { return T1 {x * x + n(3) * x}; } };
    struct precompute_g2 { typedef T2 g2_precomputed_type; static T2 process(const F1 &x) { return T2 {x * x * x + n(5)}; } };
    struct miller_loop { static F1 process(const T1 &a, const T2 &b) { return a.v * b.v * b.v + n(7); } };
    struct double_miller_loop { static F1 process(const T1 &a, const T2 &b, const T1 &c, const T2 &d) { return miller_loop::process(a, b) * miller_loop::process(c, d); } };
    struct final_exponentiation { static F1 process(const F1 &f) { return f * f * f * f * f; } };
};
namespace nil { namespace crypto3 { namespace algebra { namespace pairing {
    template<> struct pairing_policy<MC> : MP { };
}}}}
#define ARGS HIO F1 a = rd<F1>(in), b = rd<F1>(in), c = rd<F1>(in), d = rd<F1>(in); MP::T1 p {a}, r {c}; MP::T2 q {b}, s {d}; (void)p; (void)r; (void)q; (void)s;
#define XX(nm, ...) H(h_##nm) { ARGS wr(out, alg::nm<MC, MP>(__VA_ARGS__) VAL); } H(h_##nm##_default) { ARGS wr(out, alg::nm<MC>(__VA_ARGS__) VAL); }
#define VAL
XX(pair, a, b)
XX(pair_reduced, a, b)
XX(miller_loop, p, q)
XX(double_miller_loop, p, q, r, s)
XX(final_exponentiation, a)
#undef VAL
#define VAL .v
XX(precompute_g1, a)
XX(precompute_g2, b)
