// Octet encodings of field elements (bincode) and of points of BLS12-381
#ifdef POINTS    // an assertion of the library rejects the input
#define BOOST_ENABLE_ASSERT_HANDLER
#include <csetjmp>
static std::jmp_buf vch_jb;
extern "C" __attribute__((noinline)) void vch_rejected() {
    std::longjmp(vch_jb, 1);
}
namespace boost {
    inline void assertion_failed(char const *, char const *, char const *, long) {
        vch_rejected();
    }
    inline void assertion_failed_msg(char const *, char const *, char const *, char const *, long) {
        vch_rejected();
    }
}    // namespace boost
#endif
#include <cassert>
#include <boost/assert.hpp>
#include "common.hpp"
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/marshalling.hpp>
#ifdef HDR
#include HDR
#endif
#ifdef HDR2
#include HDR2
#endif
using namespace nil::crypto3::algebra;
namespace bc = nil::marshalling::bincode;
#ifdef FIELD
typedef FIELD F;
typedef F::value_type E;
#ifdef WRAP    // the same through the codec of the curve
struct C {
    typedef bc::curve<curves::bls12<381>> K;
    static const std::size_t field_octets_num = bc::field<F>::field_octets_num;
    static std::size_t get_element_size() {
#ifdef WRAPSIZE
        return K::element_size<F>();
#else
        return field_octets_num;
#endif
    }
    template<class I>
    static std::size_t field_element_to_bytes(const E &a, I first, I last) {
        return K::field_element_to_bytes<F>(a, first, last);
    }
    template<class I>
    static std::pair<bool, E> field_element_from_bytes(I first, I last) {
        return K::field_element_from_bytes<F>(first, last);
    }
};
#else
typedef bc::field<F> C;
#endif
template<class I>
void encode(const u64 *in_, u64 *out_, const i64 *ii, i64 *io, I first, I last) {
    HIO E a = rd<E>(in);
    io[0] = (i64)C::field_element_to_bytes(a, first, last);
    io[1] = (i64)C::get_element_size();
    io[2] = (i64)(std::size_t)C::field_octets_num;
    for (std::size_t i = 0; first != last; ++i, ++first)
        io[3 + i] = (i64)(u64)*first;
}
template<class I>
void decode(u64 *out_, i64 *io, I first, I last) {
    vch::Out out {out_};
    std::pair<bool, E> r = C::field_element_from_bytes(first, last);
    io[0] = r.first;
    wr(out, r.second);
}
H(h_enc) {    // ii: number of octets, old contents of the buffer; io: returned count, octets
    unsigned char b[4096];
    for (i64 i = 0; i < ii[0]; ++i)
        b[i] = (unsigned char)ii[1 + i];
    encode(in_, out_, ii, io, &b[0], &b[ii[0]]);
}
H(h_encv) {    // vector iterators
    std::vector<std::uint8_t> v((std::size_t)ii[0]);
    encode(in_, out_, ii, io, v.begin(), v.end());
}
H(h_dec) {
    unsigned char b[4096];
    for (i64 i = 0; i < ii[0]; ++i)
        b[i] = (unsigned char)ii[1 + i];
    decode(out_, io, (const unsigned char *)&b[0], (const unsigned char *)&b[ii[0]]);
}
H(h_decv) {
    std::vector<std::uint8_t> v((std::size_t)ii[0]);
    for (i64 i = 0; i < ii[0]; ++i)
        v[i] = (unsigned char)ii[1 + i];
    decode(out_, io, v.begin(), v.end());
}
#endif
#ifdef POINTS
typedef curves::bls12<381> K;
typedef nil::marshalling::curve_element_serializer<K> S;
typedef bc::curve<K> BC;
template<class G, bool g1>
void point_encode(const u64 *in_, const i64 *ii, i64 *io) {    // ii: 0 compressed, 1 uncompressed, 2 the codec of the curve
    vch::In in {in_};
    typedef typename G::value_type P;
    typedef typename P::field_type::value_type E;
    E x = rd<E>(in), y = rd<E>(in), z = rd<E>(in);
    P p(x, y, z);
    if (ii[0] == 0) {
        auto r = S::point_to_octets_compress(p);
        io[0] = (i64)r.size();
        for (std::size_t i = 0; i < r.size(); ++i)
            io[1 + i] = (i64)(u64)r[i];
    } else if (ii[0] == 1) {
        auto r = S::point_to_octets(p);
        io[0] = (i64)r.size();
        for (std::size_t i = 0; i < r.size(); ++i)
            io[1 + i] = (i64)(u64)r[i];
    } else {
        std::vector<std::uint8_t> r(BC::element_size<G>());
        io[0] = (i64)BC::point_to_bytes<G>(p, r.begin(), r.end());
        for (std::size_t i = 0; i < r.size(); ++i)
            io[1 + i] = (i64)(u64)r[i];
    }
}
template<bool g1, class R>
auto point_from(const R &r) {
    if constexpr (g1)
        return S::octets_to_g1_point(r);
    else
        return S::octets_to_g2_point(r);
}
template<class P>
void put_point(u64 *out_, const P &p) {
    vch::Out out {out_};
    wr(out, p.X);
    wr(out, p.Y);
    wr(out, p.Z);
}
template<class R>
void fill_from(R &r, const i64 *ii) {
    for (std::size_t i = 0; i < r.size(); ++i)
        r[i] = (std::uint8_t)ii[i];
}
template<class G, bool g1>
void point_decode(u64 *out_, const i64 *ii, i64 *io) {    // ii: 0 array, 1 vector, 2 the codec of the curve; number of octets; octets
    const std::size_t f = g1 ? 48 : 96;
    io[0] = 1;
    if (setjmp(vch_jb))
        return;
    if (ii[0] == 0 && ii[1] == (i64)f) {
        std::array<std::uint8_t, f> r;
        fill_from(r, ii + 2);
        put_point(out_, point_from<g1>(r));
    } else if (ii[0] == 0) {
        std::array<std::uint8_t, 2 * f> r;
        fill_from(r, ii + 2);
        put_point(out_, point_from<g1>(r));
    } else {
        std::vector<std::uint8_t> r((std::size_t)ii[1]);
        fill_from(r, ii + 2);
        if (ii[0] == 1)
            put_point(out_, point_from<g1>(r));
        else if constexpr (g1)
            put_point(out_, BC().g1_point_from_bytes(r.begin(), r.end()));
        else
            put_point(out_, BC().g2_point_from_bytes(r.begin(), r.end()));
    }
    io[0] = 0;
}
H(h_g1_enc) {
    point_encode<K::g1_type<>, true>(in_, ii, io);
}
H(h_g2_enc) {
    point_encode<K::g2_type<>, false>(in_, ii, io);
}
H(h_g1_dec) {
    point_decode<K::g1_type<>, true>(out_, ii, io);
}
H(h_g2_dec) {
    point_decode<K::g2_type<>, false>(out_, ii, io);
}
#endif
