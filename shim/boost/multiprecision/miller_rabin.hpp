#include <boost/multiprecision/number.hpp>
