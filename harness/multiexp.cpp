// Multi-exponentiation, window tables, wNAF: the real templates over Jacobian points of an abstract curve, with scalars of a real
// 255-bit scalar field.  Window size tables of the library belong to its concrete groups; the abstract group has its own.
#include <cassert>
#include <boost/assert.hpp>
#include "absfield.hpp"
#include "loopcontracts.hpp"
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include <nil/crypto3/algebra/multiexp/policies.hpp>
#include <nil/crypto3/algebra/multiexp/inner_product.hpp>
#include <nil/crypto3/algebra/fields/bls12/scalar_field.hpp>
using namespace vch;
namespace al = nil::crypto3::algebra;
namespace cv = al::curves;
namespace cd = cv::detail;
namespace co = cv::coordinates;
typedef cv::forms fo;
typedef fo::short_weierstrass FORM;
typedef co::jacobian CO;
struct CT;
template<class C, class Params, class Form>
struct Grp {
    typedef ::CT curve_type;
    typedef cd::curve_element<Params, Form, C> value_type;
    typedef Params params_type;
    typedef AF field_type;
    constexpr static const std::size_t value_bits = 64;
};
struct Par {
    typedef AF field_type;
    typedef AF base_field_type;
    constexpr static const F1 a = fsym(S_A), b = fsym(S_B);
    constexpr static const std::array<F1, 2> zero_fill = {F1(AF::integral_type(0u)), fsym(S_A2 + 3)};
    constexpr static const std::array<F1, 3> one_fill = {fsym(S_GX), fsym(S_GY), F1(AF::integral_type(1u))};
    template<class C>
    using group_type = Grp<C, Par, FORM>;
};
struct CT {
    template<class C, class Form>
    struct g1_type {
        typedef Par params_type;
        typedef cd::curve_element<Par, Form, C> value_type;
    };
};
typedef cd::curve_element<Par, FORM, CO> G;
typedef Grp<CO, Par, FORM> GR;
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    template<>
    struct wnaf_params<::GR> {
        constexpr static const std::array<std::size_t, 4> wnaf_window_table = {5, 11, 24, 60};
    };
    template<>
    struct multiexp_params<::GR> {
        constexpr static const std::array<std::size_t, 5> fixed_base_exp_window_table = {1, 5, 11, 0, 55};
    };
}}}}
typedef al::fields::bls12_scalar_field<381> SF;
typedef SF::value_type S;

static G rp(In &in) {
    F1 x = rd<F1>(in), y = rd<F1>(in), z = rd<F1>(in);
    return G(x, y, z);
}
static void wp(Out &o, const G &p) {
    wr(o, p.X);
    wr(o, p.Y);
    wr(o, p.Z);
}
// inputs: n points, n scalars
#define VS(n)                          \
    std::vector<G> v;                  \
    std::vector<S> s;                  \
    for (i64 i_ = 0; i_ < (n); ++i_)   \
        v.push_back(rp(in));           \
    for (i64 i_ = 0; i_ < (n); ++i_)   \
        s.push_back(rd<S>(in));
typedef al::policies::multiexp_method_naive_plain naive;
typedef al::policies::multiexp_method_BDLO12 bdlo;
typedef al::policies::multiexp_method_bos_coster bosc;
H(h_naive) { HIO VS(ii[0]) wp(out, naive::process(v.begin(), v.end(), s.begin(), s.end())); }
H(h_bdlo) { HIO VS(ii[0]) wp(out, bdlo::process(v.begin(), v.end(), s.begin(), s.end())); }
H(h_bosc) { HIO VS(ii[0]) wp(out, bosc::process(v.begin(), v.end(), s.begin(), s.end())); }
H(h_mexp_naive) { HIO VS(ii[0]) wp(out, al::multiexp<naive>(v.cbegin(), v.cend(), s.cbegin(), s.cend(), ii[1])); }
H(h_mexp_bdlo) { HIO VS(ii[0]) wp(out, al::multiexp<bdlo>(v.cbegin(), v.cend(), s.cbegin(), s.cend(), ii[1])); }
H(h_mexp_bosc) { HIO VS(ii[0]) wp(out, al::multiexp<bosc>(v.cbegin(), v.cend(), s.cbegin(), s.cend(), ii[1])); }
H(h_mixed_naive) { HIO VS(ii[0]) wp(out, al::multiexp_with_mixed_addition<naive>(v.begin(), v.end(), s.begin(), s.end(), ii[1])); }
H(h_mixed_bdlo) { HIO VS(ii[0]) wp(out, al::multiexp_with_mixed_addition<bdlo>(v.begin(), v.end(), s.begin(), s.end(), ii[1])); }
H(h_mixed_bosc) { HIO VS(ii[0]) wp(out, al::multiexp_with_mixed_addition<bosc>(v.begin(), v.end(), s.begin(), s.end(), ii[1])); }
H(h_inner) {
    HIO std::vector<S> a, b;
    for (i64 i = 0; i < ii[0]; ++i) a.push_back(rd<S>(in));
    for (i64 i = 0; i < ii[0]; ++i) b.push_back(rd<S>(in));
    wr(out, al::inner_product(a.begin(), a.end(), b.begin(), b.end()));
}
H(h_wsize) { HIO io[0] = al::get_exp_window_size<GR>(ii[0]); }
H(h_wnaf) { HIO G a = rp(in); auto n = rdn<SF::integral_type>(in); wp(out, al::fixed_window_wnaf_exp(ii[0], a, n)); }
H(h_optw) { HIO G a = rp(in); auto n = rdn<SF::integral_type>(in); wp(out, al::opt_window_wnaf_exp(a, n, ii[0])); }
H(h_table) {
    HIO G a = rp(in);
    al::window_table<GR> t = al::get_window_table<GR>(ii[0], ii[1], a);
    io[0] = t.size();
    for (auto &r : t) {
        *++io = r.size();
        for (auto &p : r)
            wp(out, p);
    }
}
H(h_wexp) { HIO G a = rp(in); S n = rd<S>(in); al::window_table<GR> t = al::get_window_table<GR>(ii[0], ii[1], a); wp(out, al::windowed_exp<GR, SF>(ii[0], ii[1], t, n)); }
H(h_bexp) {
    HIO G a = rp(in);
    std::vector<S> v;
    for (i64 i = 0; i < ii[2]; ++i) v.push_back(rd<S>(in));
    al::window_table<GR> t = al::get_window_table<GR>(ii[0], ii[1], a);
    std::vector<G> r = al::batch_exp<GR, SF>(ii[0], ii[1], t, v);
    io[0] = r.size();
    for (auto &p : r) wp(out, p);
}
H(h_bexpc) {
    HIO G a = rp(in);
    S k = rd<S>(in);
    std::vector<S> v;
    for (i64 i = 0; i < ii[2]; ++i) v.push_back(rd<S>(in));
    al::window_table<GR> t = al::get_window_table<GR>(ii[0], ii[1], a);
    std::vector<G> r = al::batch_exp_with_coeff<GR, SF>(ii[0], ii[1], t, k, v);
    io[0] = r.size();
    for (auto &p : r) wp(out, p);
}

// operands in arrays the caller owns (of any length)
struct Arr {
    const G *b, *e;
    const S *sb, *se;
};
H(h_naive_p) { HIO Arr &a = *(Arr *)ii; wp(out, naive::process(a.b, a.e, a.sb, a.se)); }
H(h_mixed_p) { HIO Arr &a = *(Arr *)ii; wp(out, al::multiexp_with_mixed_addition<naive>(a.b, a.e, a.sb, a.se, ii[4])); }
H(h_mexp_p) { HIO Arr &a = *(Arr *)ii; wp(out, al::multiexp<naive>(a.b, a.e, a.sb, a.se, ii[4])); }
H(h_wexp_p) { HIO const al::window_table<GR> &t = **(const al::window_table<GR> **)ii; S n = rd<S>(in); wp(out, al::windowed_exp<GR, SF>(ii[1], ii[2], t, n)); }
H(h_bexp_p) {
    HIO const al::window_table<GR> &t = **(const al::window_table<GR> **)ii;
    std::vector<S> v;
    for (i64 i = 0; i < ii[3]; ++i) v.push_back(rd<S>(in));
    std::vector<G> r = al::batch_exp<GR, SF>(ii[1], ii[2], t, v);
    io[0] = r.size();
    for (auto &p : r) wp(out, p);
}
H(h_table_any) {    // any scalar size
    HIO G a = rp(in);
    auto &t = *new al::window_table<GR>(al::get_window_table<GR>(ii[0], ii[1], a));
    io[0] = (i64)t.data(); io[1] = (i64)(t.data() + t.size());
}
H(h_bexp_any) {    // any number of scalars, in a vector the caller owns
    const al::window_table<GR> &t = **(const al::window_table<GR> **)ii;
    auto &r = *new std::vector<G>(al::batch_exp<GR, SF>(ii[1], ii[2], t, *(const std::vector<S> *)(ii + 3)));
    io[0] = (i64)r.data(); io[1] = (i64)(r.data() + r.size());
}
H(h_bexpc_any) {
    HIO const al::window_table<GR> &t = **(const al::window_table<GR> **)ii;
    S k = rd<S>(in);
    auto &r = *new std::vector<G>(al::batch_exp_with_coeff<GR, SF>(ii[1], ii[2], t, k, *(const std::vector<S> *)(ii + 3)));
    io[0] = (i64)r.data(); io[1] = (i64)(r.data() + r.size());
}
H(h_bexpc_p) {
    HIO const al::window_table<GR> &t = **(const al::window_table<GR> **)ii;
    S k = rd<S>(in);
    std::vector<S> v;
    for (i64 i = 0; i < ii[3]; ++i) v.push_back(rd<S>(in));
    std::vector<G> r = al::batch_exp_with_coeff<GR, SF>(ii[1], ii[2], t, k, v);
    io[0] = r.size();
    for (auto &p : r) wp(out, p);
}
