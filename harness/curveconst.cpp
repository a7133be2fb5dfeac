// Dumps the constants of one curve group: the parameters, the generator and the neutral element in its coordinates.
#ifndef NLB
#define NLB 1152
#endif
#define FIELD GROUP::field_type
#include "common.hpp"
#include <nil/crypto3/algebra/fields/detail/element/fp.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp4.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_2over3.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp6_3over2.hpp>
#include <nil/crypto3/algebra/fields/detail/element/fp12_2over3over2.hpp>
#include <boost/range/concepts.hpp>
#ifdef PRE0
#include PRE0
#endif
#ifdef PRE1
#include PRE1
#endif
#include HDR
#ifdef PRE2
#include PRE2
#endif
using namespace vch;
namespace alg = nil::crypto3::algebra;
namespace fields = nil::crypto3::algebra::fields;
namespace curves = nil::crypto3::algebra::curves;
namespace co = nil::crypto3::algebra::curves::coordinates;
typedef nil::crypto3::algebra::curves::forms fo;
typedef GROUP G;
typedef typename G::field_type F;
typedef typename G::params_type P;
typedef typename G::value_type V;
typedef mp::number<mp::backends::cpp_int_modular_backend<NLB>> W;
static const unsigned MAXV = 40;
struct Slot {
    Out o;
    i64 *n;
    explicit Slot(u64 *b, i64 *io, unsigned k) : o {b + (std::size_t)k * MAXV * (NLB / 64 + 1)}, n(io + k) { *n = 0; }
    template<class T>
    void put(const T &v) {
        if constexpr (std::is_integral<T>::value) {
            wrn(o, W((std::uint64_t)v));
            ++*n;
        } else if constexpr (is_num<T>::value) {
            wrn(o, W(v));
            ++*n;
        } else if constexpr (std::is_class<T>::value) {
            putc(v, 0);
        }
    }
    template<class T>
    auto putc(const T &v, int) -> decltype(v.data, void()) {
        if constexpr (rank_of<T>::value == 0) {
            wrn(o, W(typename T::field_type::integral_type(v.data)));
            ++*n;
        } else
            for (std::size_t i = 0; i < rank_of<T>::value; ++i)
                put(v.data[i]);
    }
    template<class T>
    auto putc(const T &v, long) -> decltype(v.size(), void()) {
        for (std::size_t i = 0; i < v.size(); ++i)
            put(v[i]);
    }
};
#define HAS(m) \
    template<class T, class = void> struct has_##m : std::false_type { }; \
    template<class T> struct has_##m<T, std::void_t<decltype(T::m)>> : std::true_type { };
#define ITEMS X(a) X(b) X(c) X(d) X(A) X(B) X(twist) X(cofactor) X(one_fill) X(zero_fill) X(modulus) X(value_bits)
#define X(m) HAS(m)
ITEMS
#undef X
template<class T>
void dump(u64 *out_, i64 *io) {
    unsigned k = 0;
#define X(m) { Slot s(out_, io, k); if constexpr (has_##m<T>::value) s.put(T::m); ++k; }
    ITEMS
#undef X
}
H(h_params) { dump<P>(out_, io); }
H(h_group) { dump<G>(out_, io); }
H(h_base) { dump<typename P::base_field_type>(out_, io); }
H(h_scalar) { dump<typename P::scalar_field_type>(out_, io); }
H(h_cbase) { dump<typename CURVE::base_field_type>(out_, io); }
H(h_cscalar) { dump<typename CURVE::scalar_field_type>(out_, io); }
template<class T, class = void> struct has_Z : std::false_type { };
template<class T> struct has_Z<T, std::void_t<decltype(std::declval<T>().Z)>> : std::true_type { };
template<class T, class = void> struct has_T : std::false_type { };
template<class T> struct has_T<T, std::void_t<decltype(std::declval<T>().T)>> : std::true_type { };
template<class T>
void coords(const T &v, u64 *out_, i64 *io) {
    {Slot s(out_, io, 0); s.put(v.X);}
    {Slot s(out_, io, 1); s.put(v.Y);}
    {Slot s(out_, io, 2); if constexpr (has_Z<T>::value) s.put(v.Z);}
    {Slot s(out_, io, 3); if constexpr (has_T<T>::value) s.put(v.T);}
}
H(h_one) { coords(V::one(), out_, io); }
H(h_zero) { coords(V::zero(), out_, io); }
H(h_dflt) { coords(V(), out_, io); }
#ifndef NO_WF
#define WF(x) (x).is_well_formed()
#else
#define WF(x) true
#endif
H(h_wf) { io[0] = WF(V::one()); io[1] = WF(V::zero()); io[2] = V::zero().is_zero(); io[3] = V::one().is_zero(); io[4] = V().is_zero(); }
// the extension the coordinates live in
#ifdef EXTF
H(h_nr) { Slot s(out_, io, 0); s.put(F::value_type::non_residue); }
#endif
#ifdef PARAMS2
H(h_params2) { dump<PARAMS2>(out_, io); }
#endif
#ifdef XIF
#include <nil/crypto3/algebra/fields/fp6_3over2.hpp>
H(h_xi) { Slot s(out_, io, 0); s.put(fields::fp6_3over2<typename CURVE::base_field_type>::value_type::non_residue); }
#endif
