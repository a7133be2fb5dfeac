// Access to the real classes from flat buffers: {tag, limbs...} per number. No logic of its own.
#ifndef VCH_COMMON_HPP
#define VCH_COMMON_HPP
#include <array>
#include <cstdint>
#include <cstring>
#include <vector>
#include <limits>
#include <type_traits>
#include <utility>
#include <tuple>
#include <algorithm>
#include <string>
#include <cmath>
#include <complex>
#include <iostream>
#include <unordered_map>
#include <map>
#include <functional>
#include <numeric>
#include <boost/range/concepts.hpp>
#include <boost/multiprecision/number.hpp>
typedef std::uint64_t u64;
typedef std::int64_t i64;

namespace vch {
    namespace mp = boost::multiprecision;
    template<class T, class = void>
    struct is_num : std::false_type { };
    template<class B, mp::expression_template_option E>
    struct is_num<mp::number<B, E>> : std::true_type { };

    struct In {
        const u64 *p;
    };
    struct Out {
        u64 *p;
    };
    template<class N>
    N rdn(In &in) {
        N n;
        std::memcpy((void *)&n, (const void *)in.p, sizeof(N));
        in.p += sizeof(N) / 8;
        return n;
    }
    template<class N>
    void wrn(Out &o, const N &n) {
        std::memcpy((void *)o.p, (const void *)&n, sizeof(N));
        o.p += sizeof(N) / 8;
    }
    template<class E>
    struct rank_of {
        template<class D>
        static constexpr std::size_t f(const std::array<D, 2> *) { return 2; }
        template<class D>
        static constexpr std::size_t f(const std::array<D, 3> *) { return 3; }
        static constexpr std::size_t f(...) { return 0; }
        static constexpr std::size_t value = f((typename E::data_type *)nullptr);
    };
    template<class E>
    E rd(In &in) {
        if constexpr (is_num<E>::value) {
            return rdn<E>(in);
        } else if constexpr (rank_of<E>::value == 0) {
            E e;
            e.data = rdn<typename E::data_type>(in);
            return e;
        } else {
            E e;
            for (std::size_t i = 0; i < rank_of<E>::value; ++i)
                e.data[i] = rd<typename E::data_type::value_type>(in);
            return e;
        }
    }
    template<class E>
    void wr(Out &o, const E &e) {
        if constexpr (is_num<E>::value) {
            wrn(o, e);
        } else if constexpr (rank_of<E>::value == 0) {
            wrn(o, e.data);
        } else {
            for (std::size_t i = 0; i < rank_of<E>::value; ++i)
                wr(o, e.data[i]);
        }
    }
}    // namespace vch
#define H(name) extern "C" void name(const u64 *in_, u64 *out_, const i64 *ii, i64 *io)
#define HIO vch::In in {in_}; vch::Out out {out_}; (void)in; (void)out; (void)ii; (void)io;
using vch::rd;
using vch::wr;
#endif
