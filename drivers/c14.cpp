#include "validate.h"
extern "C" {
std::vector<Integer> d_cycles(const std::vector<Integer>& cycles, Integer offset) { return Random::perm(cycles, offset); }
std::vector<Integer> d_fix(Integer count, const std::vector<Integer>& fix, Integer offset) { return Random::perm(count, fix, offset); }
}
