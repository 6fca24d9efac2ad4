#include "validate.h"
extern "C" {
Integer d_multInv(Integer n, Integer m) { return multInv(n, m); }
Integer d_euclid(Integer a, Integer b, Integer& x, Integer& y) { return details::extendedEuclid(a, b, x, y); }
}
