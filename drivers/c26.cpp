#include "validate.h"
extern "C" {
std::vector<Integer> d_range(Integer a, Integer b, Integer s) { return range(a, b, s); }
std::vector<Integer> d_range1(Integer b) { return range(b); }
std::vector<Integer> d_tm(Integer a, Integer b) { return thueMorse(a, b); }
std::vector<Integer> d_tm1(Integer b) { return thueMorse(b); }
}
