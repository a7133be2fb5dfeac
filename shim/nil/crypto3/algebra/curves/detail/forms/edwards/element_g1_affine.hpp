// This header is referred to by the repository but does not exist in it; only declarations are needed.
#include <nil/crypto3/algebra/curves/detail/forms/edwards/coordinates.hpp>
