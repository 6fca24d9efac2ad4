#include "validate.h"
extern "C" {
Integer d_prime(Integer lower, Integer upper) { return Random::prime(lower, upper); }
Integer d_prime1(Integer upper) { return Random::prime(upper); }
}
