#include "validate.h"
extern "C" {
#define D(n) std::vector<Integer> d_##n(Integer count, Integer lower, Integer upper) { return Random::n(count, lower, upper); } \
	std::vector<Integer> d_##n##1(Integer count, Integer upper) { return Random::n(count, upper); }
D(multiple)
D(increasing)
D(decreasing)
D(nonDecreasing)
D(nonIncreasing)
}
