// Executable meaning of the arithmetic contracts (vc_*), used when a counterexample is replayed against the real code.
// Compiled against the system's boost::multiprecision, not against the shim.
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/miller_rabin.hpp>
#include <cstdint>
#include <cstdio>
#include <map>
#include <random>
typedef boost::multiprecision::cpp_int Z;
typedef std::uint64_t u64;
static const u64 SYM = 0x5600000000000000ull;
static std::map<u64, Z> g_sym;

static Z limbs(const u64 *p, unsigned n) {
    Z r = 0;
    for (unsigned i = n; i-- > 0;)
        r = (r << 64) | p[i];
    return r;
}
static Z rd(const u64 *a, unsigned n) {
    if (a[0] == 0)
        return limbs(a + 1, n);
    auto it = g_sym.find(a[0]);
    if (it == g_sym.end()) {
        std::fprintf(stderr, "vc: unknown symbol %llx\n", (unsigned long long)a[0]);
        std::abort();
    }
    return it->second;
}
static void wr(u64 *o, unsigned n, Z v) {
    o[0] = 0;
    for (unsigned i = 0; i < n; ++i) {
        o[1 + i] = (u64)(v & Z(0xffffffffffffffffull));
        v >>= 64;
    }
}
static Z two(unsigned n) {
    return Z(1) << (64 * n);
}
static Z powm_(Z b, Z e, const Z &m) {
    return boost::multiprecision::powm(b % m, e, m);
}
extern "C" {
void vc_rt_symbol(u64 id, const u64 *l, unsigned n) {
    g_sym[SYM | id] = limbs(l, n);
}
void vc_i_op(unsigned op, u64 *o, unsigned no, const u64 *a, unsigned na, const u64 *b, unsigned nb) {
    Z x = rd(a, na), y = rd(b, nb), r;
    switch (op) {
        case 0: r = x + y; break;
        case 1: r = x - y; if (r < 0) r += two(no); break;
        case 2: r = x * y; break;
        case 3: if (y == 0) std::abort(); r = x / y; break;
        case 4: if (y == 0) std::abort(); r = x % y; break;
        case 5: r = y >= 64 * no ? Z(0) : x << (unsigned)y; break;
        case 6: r = y >= 64 * na ? Z(0) : x >> (unsigned)y; break;
        case 7: r = x & y; break;
        case 8: r = x | y; break;
        default: r = x ^ y; break;
    }
    wr(o, no, r);
}
bool vc_i_eq(const u64 *a, unsigned na, const u64 *b, unsigned nb) { return rd(a, na) == rd(b, nb); }
bool vc_i_lt(const u64 *a, unsigned na, const u64 *b, unsigned nb) { return rd(a, na) < rd(b, nb); }
int vc_i_cmp(const u64 *a, unsigned na, const u64 *b, unsigned nb) { Z x = rd(a, na), y = rd(b, nb); return x < y ? -1 : x > y; }
bool vc_i_bit(const u64 *a, unsigned na, u64 i) { return i < 64ull * na && bit_test(rd(a, na), (unsigned)i); }
u64 vc_i_msb(const u64 *a, unsigned na) {
    Z x = rd(a, na);
    if (x == 0) {
        std::fprintf(stderr, "vc: msb(0)\n");
        std::abort();
    }
    return msb(x);
}
u64 vc_i_low(const u64 *a, unsigned na) { return (u64)(rd(a, na) & Z(0xffffffffffffffffull)); }
void vc_i_conv(u64 *o, unsigned no, const u64 *a, unsigned na) { wr(o, no, rd(a, na)); }
void vc_i_setbyte(u64 *a, unsigned na, u64 i, unsigned byte) {
    Z x = rd(a, na);
    if (i < 8ull * na) {
        x |= Z(byte & 255) << (unsigned)(8 * i);
        wr(a, na, x);
    }
}
unsigned vc_i_getbyte(const u64 *a, unsigned na, u64 i) { return (unsigned)((rd(a, na) >> (unsigned)(8 * i)) & 255); }
u64 vc_i_bytes(const u64 *a, unsigned na) { Z x = rd(a, na); return x == 0 ? 1 : msb(x) / 8 + 1; }
bool vc_i_isprime(const u64 *a, unsigned na) {
    Z x = rd(a, na);
    if (x < 2) return false;
    for (unsigned p : {2u, 3u, 5u, 7u, 11u, 13u, 17u, 19u, 23u, 29u, 31u, 37u}) { if (x == p) return true; if (x % p == 0) return false; }
    std::mt19937 g(1);
    return boost::multiprecision::miller_rabin_test(x, 40, g);
}
void vc_m_op(unsigned op, u64 *o, const u64 *a, const u64 *b, const u64 *m, unsigned n) {
    Z p = rd(m, n), x = rd(a, n) % p, y = rd(b, n) % p;
    wr(o, n, op == 0 ? Z((x + y) % p) : op == 1 ? Z((x + p - y) % p) : Z((x * y) % p));
}
void vc_m_neg(u64 *o, const u64 *a, const u64 *m, unsigned n) { Z p = rd(m, n), x = rd(a, n) % p; wr(o, n, x == 0 ? Z(0) : Z(p - x)); }
void vc_m_inv(u64 *o, const u64 *a, const u64 *m, unsigned n) {
    Z p = rd(m, n), x = rd(a, n) % p;
    wr(o, n, x == 0 ? Z(0) : powm_(x, p - 2, p));
}
void vc_m_sqrt(u64 *o, const u64 *a, const u64 *m, unsigned n) {
    Z p = rd(m, n), x = rd(a, n) % p;
    if (x == 0 || powm_(x, (p - 1) / 2, p) != 1) { wr(o, n, 0); return; }
    Z q = p - 1; unsigned s = 0;
    while (q % 2 == 0) { q /= 2; ++s; }
    Z z = 2;
    while (powm_(z, (p - 1) / 2, p) == 1) ++z;
    Z c = powm_(z, q, p), r = powm_(x, (q + 1) / 2, p), t = powm_(x, q, p);
    unsigned mm = s;
    while (t != 1) {
        unsigned i = 0; Z u = t;
        while (u != 1) { u = u * u % p; ++i; }
        Z b = c;
        for (unsigned k = 0; k + i + 1 < mm; ++k) b = b * b % p;
        r = r * b % p; c = b * b % p; t = t * c % p; mm = i;
    }
    wr(o, n, r);
}
void vc_m_pow(u64 *o, const u64 *a, const u64 *e, unsigned ne, const u64 *m, unsigned n) { Z p = rd(m, n); wr(o, n, powm_(rd(a, n), rd(e, ne), p)); }
void vc_m_from(u64 *o, const u64 *a, unsigned na, const u64 *m, unsigned n) { wr(o, n, rd(a, na) % rd(m, n)); }
void vc_m_from_s(u64 *o, long long v, const u64 *m, unsigned n) { Z p = rd(m, n); Z t = Z(v) % p; if (t < 0) t += p; wr(o, n, t); }
void vc_m_to(u64 *o, unsigned no, const u64 *a, const u64 *m, unsigned n) { wr(o, no, rd(a, n) % rd(m, n)); }
bool vc_m_eq(const u64 *a, const u64 *b, const u64 *m, unsigned n) { Z p = rd(m, n); return rd(a, n) % p == rd(b, n) % p; }
bool vc_m_lt(const u64 *a, const u64 *b, const u64 *m, unsigned n) { Z p = rd(m, n); return rd(a, n) % p < rd(b, n) % p; }
std::size_t vc_wnaf(long *out, std::size_t cap, std::size_t w, const u64 *a, unsigned na) {
    Z c = rd(a, na);
    std::size_t j = 0;
    while (c != 0 && j < cap) {
        long u = 0;
        if ((c & 1) != 0) {
            u = (long)(c % (Z(1) << (unsigned)(w + 1)));
            if (u > (1l << w))
                u -= 1l << (w + 1);
            c -= u;
        }
        out[j++] = u;
        c /= 2;
    }
    return j;
}
}
