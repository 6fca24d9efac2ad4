#include "validate.h"
extern "C" {
Integer d_int(Integer a, Integer b) { return Random::integer(a, b); }
Integer d_int1(Integer b) { return Random::integer(b); }
Integer d_int0() { return Random::integer(); }
bool d_bit() { return Random::bit(); }
}
