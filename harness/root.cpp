// Square tests and square roots over abstract fields
#include "loopcontracts.hpp"
#include "absfield.hpp"
using namespace vch;
#ifndef FT
#define FT F2
#endif
typedef FT E;
#ifdef POL
H(h_sqrt) {
    HIO E a = rd<E>(in);
    POL::s = (std::size_t)ii[0];
    wr(out, a.sqrt());
}
#else
H(h_sqrt) {
    HIO E a = rd<E>(in);
    wr(out, a.sqrt());
}
#endif
H(h_is_square) {
    HIO E a = rd<E>(in);
    io[0] = a.is_square();
}
