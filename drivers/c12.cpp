#include "validate.h"
extern "C" {
std::vector<Integer> d_distinct(Integer count, Integer lower, Integer upper) { return Random::distinct(count, lower, upper); }
std::vector<Integer> d_distinct1(Integer count, Integer upper) { return Random::distinct(count, upper); }
}
