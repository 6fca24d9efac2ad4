#include "validate.h"
extern "C" {
std::vector<Integer> d_partition(Integer n, Integer k, Integer min) { return Random::partition(n, k, min); }
std::vector<Integer> d_partition1(Integer n, Integer k) { return Random::partition(n, k); }
}
