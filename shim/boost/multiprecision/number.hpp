// Contract stub of the multiprecision library this repository depends on (crypto3-multiprecision, absent offline).
// A number is {tag, limbs}.  tag==0: the limbs hold the value; any other tag is a handle of the verifier
// (symbolic value) or a named constant.  Every run-time operation is an extern "C" call (vc_*): the verifier gives
// it the contract of the mathematical operation, vc_runtime.cpp gives it an executable meaning for replays.
#ifndef VC_SHIM_NUMBER_HPP
#define VC_SHIM_NUMBER_HPP

#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iosfwd>
#include <iterator>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <ostream>

#include <boost/functional/hash.hpp>

#define VC_TAG_SYM 0x5600000000000000ull

extern "C" {
// Integers. Widths are numbers of 64-bit limbs; every pointer addresses {tag, limb0, limb1, ...}.
void vc_i_op(unsigned op, std::uint64_t *out, unsigned no, const std::uint64_t *a, unsigned na, const std::uint64_t *b,
             unsigned nb);
int vc_i_cmp(const std::uint64_t *a, unsigned na, const std::uint64_t *b, unsigned nb);
bool vc_i_eq(const std::uint64_t *a, unsigned na, const std::uint64_t *b, unsigned nb);
bool vc_i_lt(const std::uint64_t *a, unsigned na, const std::uint64_t *b, unsigned nb);
bool vc_i_bit(const std::uint64_t *a, unsigned na, std::uint64_t i);
std::uint64_t vc_i_msb(const std::uint64_t *a, unsigned na);
std::uint64_t vc_i_low(const std::uint64_t *a, unsigned na);
void vc_i_conv(std::uint64_t *out, unsigned no, const std::uint64_t *a, unsigned na);
void vc_i_setbyte(std::uint64_t *a, unsigned na, std::uint64_t i, unsigned byte);
unsigned vc_i_getbyte(const std::uint64_t *a, unsigned na, std::uint64_t i);
std::uint64_t vc_i_bytes(const std::uint64_t *a, unsigned na);
bool vc_i_isprime(const std::uint64_t *a, unsigned na);
// Residues modulo m. op: 0 add, 1 sub, 2 mul
void vc_m_op(unsigned op, std::uint64_t *out, const std::uint64_t *a, const std::uint64_t *b, const std::uint64_t *m,
             unsigned n);
void vc_m_neg(std::uint64_t *out, const std::uint64_t *a, const std::uint64_t *m, unsigned n);
void vc_m_inv(std::uint64_t *out, const std::uint64_t *a, const std::uint64_t *m, unsigned n);
void vc_m_sqrt(std::uint64_t *out, const std::uint64_t *a, const std::uint64_t *m, unsigned n);
void vc_m_pow(std::uint64_t *out, const std::uint64_t *a, const std::uint64_t *e, unsigned ne, const std::uint64_t *m,
              unsigned n);
void vc_m_from(std::uint64_t *out, const std::uint64_t *a, unsigned na, const std::uint64_t *m, unsigned n);
void vc_m_from_s(std::uint64_t *out, long long v, const std::uint64_t *m, unsigned n);
void vc_m_to(std::uint64_t *out, unsigned no, const std::uint64_t *a, const std::uint64_t *m, unsigned n);
bool vc_m_eq(const std::uint64_t *a, const std::uint64_t *b, const std::uint64_t *m, unsigned n);
bool vc_m_lt(const std::uint64_t *a, const std::uint64_t *b, const std::uint64_t *m, unsigned n);
// find_wnaf: returns the number of digits and stores them
std::size_t vc_wnaf(long *out, std::size_t cap, std::size_t w, const std::uint64_t *a, unsigned na);
}

namespace boost {
    namespace multiprecision {
        enum expression_template_option { et_off = 0, et_on = 1, et_default = 2 };

        template<typename Backend, expression_template_option ET = et_off>
        class number;

        namespace vc {
            typedef std::uint64_t u64;
            typedef unsigned __int128 u128;

            // ---- constant-evaluated limb arithmetic (little endian arrays p[0..n-1]) ----
            constexpr int cmp(const u64 *a, unsigned na, const u64 *b, unsigned nb) {
                unsigned n = na > nb ? na : nb;
                for (unsigned i = n; i-- > 0;) {
                    u64 x = i < na ? a[i] : 0, y = i < nb ? b[i] : 0;
                    if (x != y)
                        return x < y ? -1 : 1;
                }
                return 0;
            }
            constexpr bool bit(const u64 *a, unsigned na, std::size_t i) {
                return i / 64 < na && ((a[i / 64] >> (i % 64)) & 1);
            }
            constexpr void add(u64 *o, unsigned no, const u64 *a, unsigned na, const u64 *b, unsigned nb) {
                u64 c = 0;
                for (unsigned i = 0; i < no; ++i) {
                    u128 s = (u128)(i < na ? a[i] : 0) + (i < nb ? b[i] : 0) + c;
                    o[i] = (u64)s;
                    c = (u64)(s >> 64);
                }
            }
            constexpr void sub(u64 *o, unsigned no, const u64 *a, unsigned na, const u64 *b, unsigned nb) {
                u64 c = 0;
                for (unsigned i = 0; i < no; ++i) {
                    u128 s = (u128)(i < na ? a[i] : 0) - (i < nb ? b[i] : 0) - c;
                    o[i] = (u64)s;
                    c = (u64)(s >> 64) ? 1 : 0;
                }
            }
            template<unsigned N>
            struct buf {
                u64 v[N] = {};
            };
            template<unsigned NO, unsigned NA, unsigned NB>
            constexpr buf<NO> mul(const u64 *a, const u64 *b) {
                buf<NO> o {};
                for (unsigned i = 0; i < NA && i < NO; ++i) {
                    u64 c = 0;
                    for (unsigned j = 0; i + j < NO; ++j) {
                        u128 s = (u128)a[i] * (j < NB ? b[j] : 0) + o.v[i + j] + c;
                        o.v[i + j] = (u64)s;
                        c = (u64)(s >> 64);
                    }
                }
                return o;
            }
            // (q, r) of a / b by shift and subtract
            template<unsigned NA, unsigned NB>
            constexpr void divmod(const u64 *a, const u64 *b, u64 *q, u64 *r) {
                u64 rr[NB + 1] = {};
                u64 bb[NB + 1] = {};
                for (unsigned i = 0; i < NB; ++i)
                    bb[i] = b[i];
                for (unsigned i = 0; i < NA; ++i)
                    q[i] = 0;
                for (unsigned i = NA * 64; i-- > 0;) {
                    for (unsigned k = NB + 1; k-- > 1;)
                        rr[k] = (rr[k] << 1) | (rr[k - 1] >> 63);
                    rr[0] = (rr[0] << 1) | (bit(a, NA, i) ? 1 : 0);
                    if (cmp(rr, NB + 1, bb, NB + 1) >= 0) {
                        sub(rr, NB + 1, rr, NB + 1, bb, NB + 1);
                        q[i / 64] |= (u64)1 << (i % 64);
                    }
                }
                for (unsigned i = 0; i < NB; ++i)
                    r[i] = rr[i];
            }
            // inverse modulo an odd prime (binary extended Euclid); 0 is mapped to 0
            template<unsigned N>
            constexpr void half(u64 *x, const u64 *m) {
                u64 t[N + 1] = {};
                for (unsigned i = 0; i < N; ++i)
                    t[i] = x[i];
                if (x[0] & 1)
                    add(t, N + 1, x, N, m, N);
                for (unsigned i = 0; i < N; ++i)
                    x[i] = (t[i] >> 1) | (t[i + 1] << 63);
            }
            template<unsigned N>
            constexpr void inv(const u64 *a, const u64 *m, u64 *out) {
                u64 u[N] = {}, v[N] = {}, x[N] = {}, y[N] = {}, zero[N] = {};
                for (unsigned i = 0; i < N; ++i) {
                    u[i] = a[i];
                    v[i] = m[i];
                    out[i] = 0;
                }
                x[0] = 1;
                if (cmp(u, N, zero, N) == 0)
                    return;
                while (cmp(u, N, zero, N) != 0) {
                    while (!(u[0] & 1)) {
                        for (unsigned i = 0; i < N; ++i)
                            u[i] = (u[i] >> 1) | (i + 1 < N ? u[i + 1] << 63 : 0);
                        half<N>(x, m);
                    }
                    while (!(v[0] & 1)) {
                        for (unsigned i = 0; i < N; ++i)
                            v[i] = (v[i] >> 1) | (i + 1 < N ? v[i + 1] << 63 : 0);
                        half<N>(y, m);
                    }
                    if (cmp(u, N, v, N) >= 0) {
                        sub(u, N, u, N, v, N);
                        if (cmp(x, N, y, N) < 0) {
                            u64 t[N + 1] = {};
                            add(t, N + 1, x, N, m, N);
                            sub(t, N + 1, t, N + 1, y, N);
                            for (unsigned i = 0; i < N; ++i)
                                x[i] = t[i];
                        } else
                            sub(x, N, x, N, y, N);
                    } else {
                        sub(v, N, v, N, u, N);
                        if (cmp(y, N, x, N) < 0) {
                            u64 t[N + 1] = {};
                            add(t, N + 1, y, N, m, N);
                            sub(t, N + 1, t, N + 1, x, N);
                            for (unsigned i = 0; i < N; ++i)
                                y[i] = t[i];
                        } else
                            sub(y, N, y, N, x, N);
                    }
                }
                for (unsigned i = 0; i < N; ++i)
                    out[i] = y[i];
            }
        }    // namespace vc

        namespace backends {
            using vc::u64;

            template<std::size_t Bits>
            struct cpp_int_modular_backend {
                static constexpr unsigned nl = (Bits + 63) / 64;
                static constexpr std::size_t bits = Bits;
                u64 tag = 0;
                u64 limb[nl] = {};

                constexpr cpp_int_modular_backend() = default;
                constexpr cpp_int_modular_backend(const cpp_int_modular_backend &) = default;
                constexpr cpp_int_modular_backend &operator=(const cpp_int_modular_backend &) = default;
                template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
                constexpr cpp_int_modular_backend(T v) {
                    limb[0] = (u64)v;
                    if (v < 0) {
                        limb[0] = 0 - limb[0];
                    }
                }
                template<std::size_t B2>
                constexpr cpp_int_modular_backend(const cpp_int_modular_backend<B2> &o) {
                    if (__builtin_is_constant_evaluated()) {
                        tag = o.tag;
                        for (unsigned i = 0; i < nl; ++i)
                            limb[i] = i < o.nl ? o.limb[i] : 0;
                    } else {
                        vc_i_conv(&tag, nl, &o.tag, o.nl);
                    }
                }
                static constexpr cpp_int_modular_backend symbol(unsigned id) {
                    cpp_int_modular_backend r;
                    r.tag = VC_TAG_SYM | id;
                    return r;
                }
            };

            template<typename Backend>
            struct modular_params {
                Backend m_mod;
                constexpr modular_params() = default;
                constexpr modular_params(const Backend &b) : m_mod(b) {}
                template<std::size_t B2>
                constexpr modular_params(const cpp_int_modular_backend<B2> &b) : m_mod(b) {}
                template<typename B2, expression_template_option ET>
                constexpr modular_params(const number<B2, ET> &b) : m_mod(b.backend()) {}
                constexpr number<Backend, et_off> get_mod() const;
            };

            template<typename Backend, const modular_params<Backend> &P>
            struct modular_params_ct {
                static constexpr const modular_params<Backend> &params() {
                    return P;
                }
            };
            template<typename Backend>
            struct modular_params_rt { };

            template<typename Backend, typename Storage>
            struct modular_adaptor;

            // residue with a compile-time modulus
            template<std::size_t Bits, const modular_params<cpp_int_modular_backend<Bits>> &P>
            struct modular_adaptor<cpp_int_modular_backend<Bits>, modular_params_ct<cpp_int_modular_backend<Bits>, P>> {
                typedef cpp_int_modular_backend<Bits> int_backend;
                static constexpr unsigned nl = int_backend::nl;
                u64 tag = 0;
                u64 limb[nl] = {};

                constexpr modular_adaptor() = default;
                constexpr modular_adaptor(const modular_adaptor &) = default;
                constexpr modular_adaptor &operator=(const modular_adaptor &) = default;

                static constexpr const u64 *mod() {
                    return &P.m_mod.tag;
                }
                template<std::size_t B2>
                constexpr modular_adaptor(const cpp_int_modular_backend<B2> &v,
                                          const modular_params<int_backend> & = P) {
                    if (__builtin_is_constant_evaluated()) {
                        tag = v.tag;
                        if (tag == 0) {
                            u64 q[cpp_int_modular_backend<B2>::nl] = {};
                            bool small = P.m_mod.tag != 0 ||
                                         vc::cmp(v.limb, cpp_int_modular_backend<B2>::nl, P.m_mod.limb, nl) < 0;
                            if (small) {
                                for (unsigned i = 0; i < nl; ++i)
                                    limb[i] = i < v.nl ? v.limb[i] : 0;
                            } else {
                                vc::divmod<cpp_int_modular_backend<B2>::nl, nl>(v.limb, P.m_mod.limb, q, limb);
                            }
                        }
                    } else {
                        vc_m_from(&tag, &v.tag, v.nl, mod(), nl);
                    }
                }
                template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
                constexpr modular_adaptor(T v, const modular_params<int_backend> & = P) {
                    if (__builtin_is_constant_evaluated()) {
                        bool neg = v < 0;
                        u64 a[1] = {neg ? 0 - (u64)v : (u64)v};
                        if (P.m_mod.tag != 0) {
                            limb[0] = a[0];
                            if (neg)
                                assert(false);
                        } else {
                            u64 q[1] = {};
                            vc::divmod<1, nl>(a, P.m_mod.limb, q, limb);
                            if (neg && a[0] != 0)
                                vc::sub(limb, nl, P.m_mod.limb, nl, limb, nl);
                        }
                    } else if (v < 0) {
                        vc_m_from_s(&tag, (long long)v, mod(), nl);
                    } else {
                        cpp_int_modular_backend<64> b((u64)v);
                        vc_m_from(&tag, &b.tag, 1, mod(), nl);
                    }
                }
                static constexpr void op(unsigned o, modular_adaptor &r, const modular_adaptor &a,
                                         const modular_adaptor &b) {
                    if (__builtin_is_constant_evaluated()) {
                        assert(a.tag == 0 && b.tag == 0 && P.m_mod.tag == 0);
                        if (o == 2) {
                            auto w = vc::mul<2 * nl, nl, nl>(a.limb, b.limb);
                            u64 q[2 * nl] = {};
                            u64 t[nl] = {};
                            vc::divmod<2 * nl, nl>(w.v, P.m_mod.limb, q, t);
                            for (unsigned i = 0; i < nl; ++i)
                                r.limb[i] = t[i];
                        } else {
                            u64 t[nl + 1] = {};
                            u64 z[nl + 1] = {};
                            if (o == 0)
                                vc::add(t, nl + 1, a.limb, nl, b.limb, nl);
                            else {
                                vc::add(t, nl + 1, a.limb, nl, P.m_mod.limb, nl);
                                vc::sub(t, nl + 1, t, nl + 1, b.limb, nl);
                            }
                            if (vc::cmp(t, nl + 1, P.m_mod.limb, nl) >= 0)
                                vc::sub(z, nl + 1, t, nl + 1, P.m_mod.limb, nl);
                            else
                                for (unsigned i = 0; i <= nl; ++i)
                                    z[i] = t[i];
                            for (unsigned i = 0; i < nl; ++i)
                                r.limb[i] = z[i];
                        }
                        r.tag = 0;
                    } else {
                        vc_m_op(o, &r.tag, &a.tag, &b.tag, mod(), nl);
                    }
                }
                static constexpr bool eq(const modular_adaptor &a, const modular_adaptor &b) {
                    if (__builtin_is_constant_evaluated()) {
                        return a.tag == b.tag && vc::cmp(a.limb, nl, b.limb, nl) == 0;
                    }
                    return vc_m_eq(&a.tag, &b.tag, mod(), nl);
                }
                static constexpr bool lt(const modular_adaptor &a, const modular_adaptor &b) {
                    if (__builtin_is_constant_evaluated()) {
                        return vc::cmp(a.limb, nl, b.limb, nl) < 0;
                    }
                    return vc_m_lt(&a.tag, &b.tag, mod(), nl);
                }
                static constexpr modular_adaptor symbol(unsigned id) {
                    modular_adaptor r;
                    r.tag = VC_TAG_SYM | id;
                    return r;
                }
            };

            // residue with a run-time modulus (only number theory helpers use it)
            template<std::size_t Bits>
            struct modular_adaptor<cpp_int_modular_backend<Bits>, modular_params_rt<cpp_int_modular_backend<Bits>>> {
                typedef cpp_int_modular_backend<Bits> int_backend;
                static constexpr unsigned nl = int_backend::nl;
                u64 tag = 0;
                u64 limb[nl] = {};
                int_backend m;
            };
        }    // namespace backends

        template<typename T>
        struct is_number : std::false_type { };
        template<typename B, expression_template_option ET>
        struct is_number<number<B, ET>> : std::true_type { };

        template<typename T>
        using vc_if_int = typename std::enable_if<std::is_integral<T>::value, bool>::type;

        // ------------------------------------------------------------------ plain integers
        template<std::size_t Bits, expression_template_option ET>
        class number<backends::cpp_int_modular_backend<Bits>, ET> {
        public:
            typedef backends::cpp_int_modular_backend<Bits> backend_type;
            typedef number value_type;
            typedef std::uint64_t limb_type;
            static constexpr unsigned nl = backend_type::nl;

            constexpr number() = default;
            constexpr number(const number &) = default;
            constexpr number &operator=(const number &) = default;
            constexpr number(const backend_type &b) : m_b(b) {}
            template<typename T, vc_if_int<T> = true>
            constexpr number(T v) : m_b(v) {}
            template<std::size_t B2, expression_template_option E2>
            constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o) : m_b(o.backend()) {}
            template<std::size_t B2>
            constexpr number(const backends::cpp_int_modular_backend<B2> &o) : m_b(o) {}
            template<typename B, typename S, expression_template_option E2>
            explicit constexpr number(const number<backends::modular_adaptor<B, S>, E2> &o) {
                vc_m_to(&m_b.tag, nl, &o.backend().tag, o.backend().mod(), o.backend().nl);
            }
            template<typename T, vc_if_int<T> = true>
            constexpr number &operator=(T v) {
                m_b = backend_type(v);
                return *this;
            }
            static constexpr number symbol(unsigned id) {
                return number(backend_type::symbol(id));
            }

            constexpr backend_type &backend() {
                return m_b;
            }
            constexpr const backend_type &backend() const {
                return m_b;
            }
            constexpr bool is_zero() const {
                return *this == number();
            }
            constexpr int compare(const number &o) const {
                return *this < o ? -1 : (*this == o ? 0 : 1);
            }
            constexpr int sign() const {
                return is_zero() ? 0 : 1;
            }
            std::string str() const {
                return "vc";
            }
            template<typename T, vc_if_int<T> = true>
            explicit constexpr operator T() const {
                if (__builtin_is_constant_evaluated()) {
                    return (T)m_b.limb[0];
                }
                return (T)vc_i_low(&m_b.tag, nl);
            }
            explicit constexpr operator bool() const {
                return !is_zero();
            }
            template<typename T>
            constexpr T convert_to() const {
                return T(*this);
            }

            static constexpr number op(unsigned o, const number &a, const number &b) {
                number r;
                if (__builtin_is_constant_evaluated()) {
                    assert(a.m_b.tag == 0 && b.m_b.tag == 0);
                    const auto *x = a.m_b.limb;
                    const auto *y = b.m_b.limb;
                    if (o == 0)
                        vc::add(r.m_b.limb, nl, x, nl, y, nl);
                    else if (o == 1)
                        vc::sub(r.m_b.limb, nl, x, nl, y, nl);
                    else if (o == 2) {
                        auto w = vc::mul<nl, nl, nl>(x, y);
                        for (unsigned i = 0; i < nl; ++i)
                            r.m_b.limb[i] = w.v[i];
                    } else if (o == 3 || o == 4) {
                        vc::u64 q[nl] = {};
                        vc::u64 t[nl] = {};
                        vc::divmod<nl, nl>(x, y, q, t);
                        for (unsigned i = 0; i < nl; ++i)
                            r.m_b.limb[i] = o == 3 ? q[i] : t[i];
                    } else if (o == 5) {
                        vc::u64 s = y[0];
                        for (unsigned i = 0; i < nl * 64; ++i)
                            if (i >= s && vc::bit(x, nl, i - s))
                                r.m_b.limb[i / 64] |= (vc::u64)1 << (i % 64);
                    } else if (o == 6) {
                        vc::u64 s = y[0];
                        for (unsigned i = 0; i < nl * 64; ++i)
                            if (vc::bit(x, nl, i + s))
                                r.m_b.limb[i / 64] |= (vc::u64)1 << (i % 64);
                    } else
                        for (unsigned i = 0; i < nl; ++i)
                            r.m_b.limb[i] = o == 7 ? x[i] & y[i] : o == 8 ? x[i] | y[i] : x[i] ^ y[i];
                } else {
                    vc_i_op(o, &r.m_b.tag, nl, &a.m_b.tag, nl, &b.m_b.tag, nl);
                }
                return r;
            }

            constexpr number &operator++() {
                *this = op(0, *this, number(1u));
                return *this;
            }
            constexpr number operator++(int) {
                number t(*this);
                ++*this;
                return t;
            }
            constexpr number &operator--() {
                *this = op(1, *this, number(1u));
                return *this;
            }
            constexpr number operator--(int) {
                number t(*this);
                --*this;
                return t;
            }

        private:
            backend_type m_b;
        };

        namespace vc {
            template<std::size_t A, std::size_t B>
            using wider = number<backends::cpp_int_modular_backend<(A > B ? A : B)>, et_off>;
        }

#define VC_INT_OP(SYM, ID)                                                                                             \
    template<std::size_t A, expression_template_option EA, std::size_t B, expression_template_option EB>               \
    constexpr vc::wider<A, B> operator SYM(const number<backends::cpp_int_modular_backend<A>, EA> &a,                  \
                                           const number<backends::cpp_int_modular_backend<B>, EB> &b) {                \
        typedef vc::wider<A, B> W;                                                                                     \
        return W::op(ID, W(a), W(b));                                                                                  \
    }                                                                                                                  \
    template<std::size_t A, expression_template_option EA, typename T, vc_if_int<T> = true>                            \
    constexpr number<backends::cpp_int_modular_backend<A>, EA> operator SYM(                                           \
        const number<backends::cpp_int_modular_backend<A>, EA> &a, T b) {                                              \
        typedef number<backends::cpp_int_modular_backend<A>, EA> W;                                                    \
        return W::op(ID, a, W(b));                                                                                     \
    }                                                                                                                  \
    template<std::size_t A, expression_template_option EA, typename T, vc_if_int<T> = true>                            \
    constexpr number<backends::cpp_int_modular_backend<A>, EA> &operator SYM##=(                                       \
        number<backends::cpp_int_modular_backend<A>, EA> &a, T b) {                                                    \
        typedef number<backends::cpp_int_modular_backend<A>, EA> W;                                                    \
        a = W::op(ID, a, W(b));                                                                                        \
        return a;                                                                                                      \
    }                                                                                                                  \
    template<std::size_t A, expression_template_option EA, std::size_t B, expression_template_option EB>               \
    constexpr number<backends::cpp_int_modular_backend<A>, EA> &operator SYM##=(                                       \
        number<backends::cpp_int_modular_backend<A>, EA> &a,                                                           \
        const number<backends::cpp_int_modular_backend<B>, EB> &b) {                                                   \
        typedef number<backends::cpp_int_modular_backend<A>, EA> W;                                                    \
        a = W(vc::wider<A, B>::op(ID, vc::wider<A, B>(a), vc::wider<A, B>(b)));                                        \
        return a;                                                                                                      \
    }
        VC_INT_OP(+, 0)
        VC_INT_OP(-, 1)
        VC_INT_OP(*, 2)
        VC_INT_OP(/, 3)
        VC_INT_OP(%, 4)
        VC_INT_OP(<<, 5)
        VC_INT_OP(>>, 6)
        VC_INT_OP(&, 7)
        VC_INT_OP(|, 8)
        VC_INT_OP(^, 9)
#undef VC_INT_OP
#define VC_INT_LEFT(SYM, ID)                                                                                           \
    template<std::size_t A, expression_template_option EA, typename T, vc_if_int<T> = true>                            \
    constexpr number<backends::cpp_int_modular_backend<A>, EA> operator SYM(                                           \
        T a, const number<backends::cpp_int_modular_backend<A>, EA> &b) {                                              \
        typedef number<backends::cpp_int_modular_backend<A>, EA> W;                                                    \
        return W::op(ID, W(a), b);                                                                                     \
    }
        VC_INT_LEFT(+, 0)
        VC_INT_LEFT(-, 1)
        VC_INT_LEFT(*, 2)
#undef VC_INT_LEFT

        namespace vc {
            template<std::size_t A, std::size_t B>
            constexpr bool ieq(const backends::cpp_int_modular_backend<A> &a,
                               const backends::cpp_int_modular_backend<B> &b) {
                if (__builtin_is_constant_evaluated())
                    return a.tag == b.tag && cmp(a.limb, a.nl, b.limb, b.nl) == 0;
                return vc_i_eq(&a.tag, a.nl, &b.tag, b.nl);
            }
            template<std::size_t A, std::size_t B>
            constexpr bool ilt(const backends::cpp_int_modular_backend<A> &a,
                               const backends::cpp_int_modular_backend<B> &b) {
                if (__builtin_is_constant_evaluated())
                    return cmp(a.limb, a.nl, b.limb, b.nl) < 0;
                return vc_i_lt(&a.tag, a.nl, &b.tag, b.nl);
            }
        }    // namespace vc
#define VC_INT_CMP(SYM, EXPR)                                                                                          \
    template<std::size_t A, expression_template_option EA, std::size_t B, expression_template_option EB>               \
    constexpr bool operator SYM(const number<backends::cpp_int_modular_backend<A>, EA> &x,                             \
                                const number<backends::cpp_int_modular_backend<B>, EB> &y) {                           \
        const auto &a = x.backend();                                                                                   \
        const auto &b = y.backend();                                                                                   \
        return EXPR;                                                                                                   \
    }                                                                                                                  \
    template<std::size_t A, expression_template_option EA, typename T, vc_if_int<T> = true>                            \
    constexpr bool operator SYM(const number<backends::cpp_int_modular_backend<A>, EA> &x, T y) {                      \
        const auto &a = x.backend();                                                                                   \
        backends::cpp_int_modular_backend<64> b(y);                                                                    \
        return EXPR;                                                                                                   \
    }                                                                                                                  \
    template<std::size_t A, expression_template_option EA, typename T, vc_if_int<T> = true>                            \
    constexpr bool operator SYM(T x, const number<backends::cpp_int_modular_backend<A>, EA> &y) {                      \
        backends::cpp_int_modular_backend<64> a(x);                                                                    \
        const auto &b = y.backend();                                                                                   \
        return EXPR;                                                                                                   \
    }
        VC_INT_CMP(==, vc::ieq(a, b))
        VC_INT_CMP(!=, !vc::ieq(a, b))
        VC_INT_CMP(<, vc::ilt(a, b))
        VC_INT_CMP(>, vc::ilt(b, a))
        VC_INT_CMP(<=, !vc::ilt(b, a))
        VC_INT_CMP(>=, !vc::ilt(a, b))
#undef VC_INT_CMP

        // ------------------------------------------------------------------ residues
        template<typename IB, typename S, expression_template_option ET>
        class number<backends::modular_adaptor<IB, S>, ET> {
        public:
            typedef backends::modular_adaptor<IB, S> backend_type;
            typedef number value_type;
            static constexpr unsigned nl = backend_type::nl;

            constexpr number() = default;
            constexpr number(const number &) = default;
            constexpr number &operator=(const number &) = default;
            constexpr number(const backend_type &b) : m_b(b) {}
            template<typename T, vc_if_int<T> = true>
            constexpr number(T v) : m_b(v) {}
            template<typename T, vc_if_int<T> = true>
            constexpr number(T v, const backends::modular_params<IB> &p) : m_b(v, p) {}
            template<std::size_t B2, expression_template_option E2>
            constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o) : m_b(o.backend()) {}
            template<std::size_t B2, expression_template_option E2>
            constexpr number(const number<backends::cpp_int_modular_backend<B2>, E2> &o,
                             const backends::modular_params<IB> &p) :
                m_b(o.backend(), p) {}
            static constexpr number symbol(unsigned id) {
                return number(backend_type::symbol(id));
            }

            constexpr backend_type &backend() {
                return m_b;
            }
            constexpr const backend_type &backend() const {
                return m_b;
            }
            constexpr bool is_zero() const {
                return backend_type::eq(m_b, backend_type());
            }
            template<typename T>
            constexpr T convert_to() const {
                return T(*this);
            }
            template<typename T, vc_if_int<T> = true>
            explicit constexpr operator T() const {
                backends::cpp_int_modular_backend<64> t;
                vc_m_to(&t.tag, 1, &m_b.tag, m_b.mod(), nl);
                return (T)vc_i_low(&t.tag, 1);
            }

            constexpr number operator+(const number &o) const {
                number r;
                backend_type::op(0, r.m_b, m_b, o.m_b);
                return r;
            }
            constexpr number operator-(const number &o) const {
                number r;
                backend_type::op(1, r.m_b, m_b, o.m_b);
                return r;
            }
            constexpr number operator*(const number &o) const {
                number r;
                backend_type::op(2, r.m_b, m_b, o.m_b);
                return r;
            }
            constexpr number operator-() const {
                number r;
                backend_type::op(1, r.m_b, r.m_b, m_b);
                return r;
            }
            constexpr number &operator+=(const number &o) {
                return *this = *this + o;
            }
            constexpr number &operator-=(const number &o) {
                return *this = *this - o;
            }
            constexpr number &operator*=(const number &o) {
                return *this = *this * o;
            }
            constexpr number &operator++() {
                return *this = *this + number(1u);
            }
            constexpr number &operator--() {
                return *this = *this - number(1u);
            }
            constexpr bool operator==(const number &o) const {
                return backend_type::eq(m_b, o.m_b);
            }
            constexpr bool operator!=(const number &o) const {
                return !backend_type::eq(m_b, o.m_b);
            }
            constexpr bool operator<(const number &o) const {
                return backend_type::lt(m_b, o.m_b);
            }
            constexpr bool operator>(const number &o) const {
                return backend_type::lt(o.m_b, m_b);
            }
            constexpr bool operator<=(const number &o) const {
                return !backend_type::lt(o.m_b, m_b);
            }
            constexpr bool operator>=(const number &o) const {
                return !backend_type::lt(m_b, o.m_b);
            }

        private:
            backend_type m_b;
        };

        namespace backends {
            template<typename Backend>
            constexpr number<Backend, et_off> modular_params<Backend>::get_mod() const {
                return number<Backend, et_off>(m_mod);
            }
        }    // namespace backends

        // ------------------------------------------------------------------ free functions
        template<std::size_t B, expression_template_option ET>
        constexpr std::size_t msb(const number<backends::cpp_int_modular_backend<B>, ET> &a) {
            if (__builtin_is_constant_evaluated()) {
                std::size_t r = 0;
                for (std::size_t i = 0; i < a.nl * 64; ++i)
                    if (vc::bit(a.backend().limb, a.nl, i))
                        r = i;
                return r;
            }
            return vc_i_msb(&a.backend().tag, a.nl);
        }
        template<std::size_t B, expression_template_option ET>
        constexpr bool bit_test(const number<backends::cpp_int_modular_backend<B>, ET> &a, std::size_t i) {
            if (__builtin_is_constant_evaluated())
                return vc::bit(a.backend().limb, a.nl, i);
            return vc_i_bit(&a.backend().tag, a.nl, i);
        }
        namespace vc {
            template<typename IB, typename S, expression_template_option ET>
            constexpr number<IB, et_off> residue(const number<backends::modular_adaptor<IB, S>, ET> &a) {
                number<IB, et_off> r;
                if (__builtin_is_constant_evaluated()) {
                    r.backend().tag = a.backend().tag;
                    for (unsigned i = 0; i < IB::nl; ++i)
                        r.backend().limb[i] = a.backend().limb[i];
                } else
                    vc_m_to(&r.backend().tag, IB::nl, &a.backend().tag, a.backend().mod(), IB::nl);
                return r;
            }
        }    // namespace vc
        template<typename IB, typename S, expression_template_option ET>
        constexpr std::size_t msb(const number<backends::modular_adaptor<IB, S>, ET> &a) {
            return msb(vc::residue(a));
        }
        template<typename IB, typename S, expression_template_option ET>
        constexpr bool bit_test(const number<backends::modular_adaptor<IB, S>, ET> &a, std::size_t i) {
            return bit_test(vc::residue(a), i);
        }
        template<typename T, vc_if_int<T> = true>
        constexpr std::size_t msb(T a) {
            std::size_t r = 0;
            while (a >>= 1)
                ++r;
            return r;
        }
        template<typename T, vc_if_int<T> = true>
        constexpr bool bit_test(T a, std::size_t i) {
            return (a >> i) & 1;
        }

        template<typename IB, typename S, expression_template_option ET, std::size_t B, expression_template_option E2>
        constexpr number<backends::modular_adaptor<IB, S>, ET>
            powm(const number<backends::modular_adaptor<IB, S>, ET> &a,
                 const number<backends::cpp_int_modular_backend<B>, E2> &e) {
            typedef number<backends::modular_adaptor<IB, S>, ET> N;
            N r;
            if (__builtin_is_constant_evaluated()) {
                r = N(1u);
                for (std::size_t i = msb(e) + 1; i-- > 0;) {
                    r = r * r;
                    if (bit_test(e, i))
                        r = r * a;
                }
            } else {
                vc_m_pow(&r.backend().tag, &a.backend().tag, &e.backend().tag, e.nl, a.backend().mod(), N::nl);
            }
            return r;
        }
        template<typename IB, typename S, expression_template_option ET, typename T, vc_if_int<T> = true>
        constexpr number<backends::modular_adaptor<IB, S>, ET>
            powm(const number<backends::modular_adaptor<IB, S>, ET> &a, T e) {
            return powm(a, number<backends::cpp_int_modular_backend<64>>(e));
        }
        template<typename IB, typename S, expression_template_option ET>
        constexpr number<backends::modular_adaptor<IB, S>, ET>
            inverse_mod(const number<backends::modular_adaptor<IB, S>, ET> &a) {
            typedef number<backends::modular_adaptor<IB, S>, ET> N;
            N r;
            if (__builtin_is_constant_evaluated()) {
                vc::inv<N::nl>(a.backend().limb, S::params().m_mod.limb, r.backend().limb);
            } else
                vc_m_inv(&r.backend().tag, &a.backend().tag, a.backend().mod(), N::nl);
            return r;
        }
        template<typename IB, typename S, expression_template_option ET>
        constexpr number<backends::modular_adaptor<IB, S>, ET>
            ressol(const number<backends::modular_adaptor<IB, S>, ET> &a) {
            typedef number<backends::modular_adaptor<IB, S>, ET> N;
            N r;
            vc_m_sqrt(&r.backend().tag, &a.backend().tag, a.backend().mod(), N::nl);
            return r;
        }
        template<std::size_t A, expression_template_option EA, std::size_t B, expression_template_option EB>
        constexpr vc::wider<A, B> gcd(const number<backends::cpp_int_modular_backend<A>, EA> &a,
                                      const number<backends::cpp_int_modular_backend<B>, EB> &b) {
            vc::wider<A, B> x(a), y(b);
            while (!y.is_zero()) {
                vc::wider<A, B> t = x % y;
                x = y;
                y = t;
            }
            return x;
        }
        template<typename T, typename U, vc_if_int<T> = true, vc_if_int<U> = true>
        constexpr T gcd(T a, U b) {
            T x = a, y = (T)b;
            while (y != 0) {
                T t = x % y;
                x = y;
                y = t;
            }
            return x;
        }
        template<std::size_t B, expression_template_option ET>
        bool miller_rabin_test(const number<backends::cpp_int_modular_backend<B>, ET> &a, unsigned) {
            return vc_i_isprime(&a.backend().tag, a.nl);
        }
        template<typename T, vc_if_int<T> = true>
        bool miller_rabin_test(T a, unsigned) {
            number<backends::cpp_int_modular_backend<64>> x(a);
            return vc_i_isprime(&x.backend().tag, 1);
        }

        // import_bits / export_bits with chunks of 8 bits; msv_first as in the library (default true)
        template<std::size_t B, expression_template_option ET, typename It>
        number<backends::cpp_int_modular_backend<B>, ET> &
            import_bits(number<backends::cpp_int_modular_backend<B>, ET> &a, It first, It last, unsigned chunk = 8,
                        bool msv_first = true) {
            assert(chunk == 8);
            a = number<backends::cpp_int_modular_backend<B>, ET>();
            std::size_t n = std::distance(first, last);
            std::size_t k = 0;
            for (It it = first; it != last; ++it, ++k) {
                vc_i_setbyte(&a.backend().tag, a.nl, msv_first ? n - 1 - k : k, (unsigned)(unsigned char)*it);
            }
            return a;
        }
        // writes the significant bytes only, as the library does (at least one)
        template<std::size_t B, expression_template_option ET, typename It>
        It export_bits(const number<backends::cpp_int_modular_backend<B>, ET> &a, It out, unsigned chunk = 8,
                       bool msv_first = true) {
            assert(chunk == 8);
            std::size_t n = vc_i_bytes(&a.backend().tag, a.nl);
            for (std::size_t k = 0; k < n; ++k) {
                *out = (unsigned char)vc_i_getbyte(&a.backend().tag, a.nl, msv_first ? n - 1 - k : k);
                ++out;
            }
            return out;
        }

        template<std::size_t B, expression_template_option ET>
        std::vector<long> find_wnaf(std::size_t window, const number<backends::cpp_int_modular_backend<B>, ET> &a) {
            std::vector<long> r(a.nl * 64 + 1, 0);
            std::size_t n = vc_wnaf(r.data(), r.size(), window, &a.backend().tag, a.nl);
            r.resize(n);
            return r;
        }
        template<typename IB, typename S, expression_template_option ET>
        std::vector<long> find_wnaf(std::size_t window, const number<backends::modular_adaptor<IB, S>, ET> &a) {
            return find_wnaf(window, vc::residue(a));
        }

        typedef number<backends::cpp_int_modular_backend<128>> uint128_t;
        typedef number<backends::cpp_int_modular_backend<256>> uint256_t;
        typedef number<backends::cpp_int_modular_backend<512>> uint512_t;
        typedef number<backends::cpp_int_modular_backend<1024>> uint1024_modular_t;

        template<typename B, expression_template_option ET>
        std::ostream &operator<<(std::ostream &os, const number<B, ET> &) {
            return os;
        }

        namespace vc {
            constexpr int hexv(char c) {
                return c >= '0' && c <= '9' ? c - '0' :
                       c >= 'a' && c <= 'f' ? c - 'a' + 10 :
                       c >= 'A' && c <= 'F' ? c - 'A' + 10 :
                                              -1;
            }
            template<std::size_t Bits, std::size_t N>
            constexpr backends::cpp_int_modular_backend<Bits> parse(const char (&s)[N]) {
                backends::cpp_int_modular_backend<Bits> r;
                bool hex = N > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X');
                if (hex) {
                    std::size_t pos = 0;
                    for (std::size_t i = N - 1; i-- > 2;) {
                        if (s[i] == '\'')
                            continue;
                        if (pos / 16 < r.nl)
                            r.limb[pos / 16] |= (u64)hexv(s[i]) << (4 * (pos % 16));
                        ++pos;
                    }
                } else {
                    for (std::size_t i = 0; i + 1 < N; ++i) {
                        if (s[i] == '\'')
                            continue;
                        u64 c = (u64)hexv(s[i]);
                        for (unsigned k = 0; k < r.nl; ++k) {
                            u128 t = (u128)r.limb[k] * 10 + c;
                            r.limb[k] = (u64)t;
                            c = (u64)(t >> 64);
                        }
                    }
                }
                return r;
            }
        }    // namespace vc
    }        // namespace multiprecision
}    // namespace boost

template<typename B, boost::multiprecision::expression_template_option ET>
struct std::hash<boost::multiprecision::number<B, ET>> {
    std::size_t operator()(const boost::multiprecision::number<B, ET> &v) const {
        std::size_t r = 0;
        for (unsigned i = 0; i < B::nl; ++i)
            r = r * 1000003u + v.backend().limb[i];
        return r;
    }
};

#define VC_LIT(N)                                                                                                      \
    template<char... C>                                                                                                \
    constexpr boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<N>>               \
        operator""_cppui_modular##N() {                                                                                \
        constexpr char s[] = {C..., '\0'};                                                                             \
        return boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<N>>(             \
            boost::multiprecision::vc::parse<N>(s));                                                                   \
    }
#include <vc_literals.inc>

#endif
