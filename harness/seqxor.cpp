// strxor over elements whose exclusive or is a symmetric polynomial (the functions are templates over the element type)
#include "absfield.hpp"
#include "loopcontracts.hpp"
#include <boost/assert.hpp>
#include <boost/range/concepts.hpp>
#include <type_traits>
#include <iterator>
#include <vector>
#include <deque>
#include <array>
#include <nil/crypto3/algebra/algorithms/strxor.hpp>
using namespace vch;
namespace alg = nil::crypto3::algebra;
struct M {
    F1 v;
    friend M operator^(const M &a, const M &b) { return M {a.v * b.v + (a.v + b.v) * (a.v + b.v) * (a.v + b.v)}; }
};
template<class C> static C get(In &in, std::size_t n) {
    C r {};
    if constexpr (!std::is_same<C, std::deque<M>>::value && std::is_default_constructible<C>::value)
        if constexpr (std::is_same<C, std::vector<M>>::value) r.resize(n);
    if constexpr (std::is_same<C, std::deque<M>>::value) r.resize(n);
    for (auto &x : r) x.v = rd<F1>(in);
    return r;
}
template<class A, class B, class O> static void range(In in, Out out, std::size_t n) {
    A a = get<A>(in, n); B b = get<B>(in, n); O o = get<O>(in, n);
    alg::strxor(a, b, o);
    for (auto &x : o) wr(out, x.v);
}
template<class A, class B, class O> static void iter(In in, Out out, i64 *io, std::size_t n) {
    A a = get<A>(in, n); B b = get<B>(in, n); O o = get<O>(in, n + 1);
    auto e = alg::strxor(a.begin(), a.end(), b.begin(), b.end(), o.begin());
    io[0] = std::distance(o.begin(), e);
    for (auto &x : o) wr(out, x.v);
}
template<class A> static void inplace(In in, Out out, i64 *io, std::size_t n) {
    const A u = get<A>(in, n), v = get<A>(in, n);
    A a = u, b = v;
    auto e = alg::strxor(a.begin(), a.end(), b.begin(), b.end(), a.begin());
    io[0] = std::distance(a.begin(), e);
    for (auto &x : a) wr(out, x.v);
    a = u;
    e = alg::strxor(a.begin(), a.end(), b.begin(), b.end(), b.begin());
    io[1] = std::distance(b.begin(), e);
    for (auto &x : b) wr(out, x.v);
    b = v;
    alg::strxor(a, b, a);
    for (auto &x : a) wr(out, x.v);
    a = u;
    alg::strxor(a, b, b);
    for (auto &x : b) wr(out, x.v);
}
typedef std::vector<M> V;
typedef std::deque<M> L;
#define N(k) \
    H(h_arr_##k) { range<std::array<M, k>, std::array<M, k>, std::array<M, k>>({in_}, {out_}, k); } \
    H(h_vec_##k) { range<V, V, V>({in_}, {out_}, k); } \
    H(h_mix_##k) { range<L, L, V>({in_}, {out_}, k); } \
    H(h_it_##k) { iter<V, V, V>({in_}, {out_}, io, k); } \
    H(h_itm_##k) { iter<std::array<M, k>, L, V>({in_}, {out_}, io, k); } \
    H(h_in_##k) { inplace<V>({in_}, {out_}, io, k); }
N(0) N(1) N(2) N(3) N(4) N(5) N(6) N(7) N(8) N(9) N(15) N(16) N(17) N(32) N(33)

H(h_vec_n) { range<V, V, V>({in_}, {out_}, ii[0]); }
H(h_it_n) { iter<V, V, V>({in_}, {out_}, io, ii[0]); }
H(h_in_n) { inplace<V>({in_}, {out_}, io, ii[0]); }

// ranges the caller owns (of any length)
extern "C" __attribute__((noinline)) u64 vch_xor(u64 a, u64 b) { return a ^ b; }
struct W {
    u64 v;
    friend W operator^(const W &a, const W &b) { return W {vch_xor(a.v, b.v)}; }
};
struct Rg {
    typedef W value_type;
    typedef W *iterator;
    typedef const W *const_iterator;
    typedef std::ptrdiff_t difference_type;
    W *b, *e;
    iterator begin() { return b; }
    iterator end() { return e; }
    const_iterator begin() const { return b; }
    const_iterator end() const { return e; }
};
struct Rgs { Rg a, b, o; };
static Rgs &own(const i64 *ii) { return *(Rgs *)ii; }
H(h_any_it) { Rgs &r = own(ii); io[0] = (i64)alg::strxor(r.a.b, r.a.e, r.b.b, r.b.e, r.o.b); }
H(h_any_range) { Rgs &r = own(ii); alg::strxor(r.a, r.b, r.o); }
