#include "validate.h"
extern "C" {
std::vector<std::pair<Integer, Integer>> d_points(Integer n, Integer dim) { return Random::nonCollinearPoints(n, dim); }
}
