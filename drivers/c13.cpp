#include "validate.h"
extern "C" {
void d_shuffle(std::vector<Integer>& v) { Random::shuffle(v); }
void d_shuffleS(std::string& v) { Random::shuffle(v); }
void d_shuffle2(Integer& a, Integer& b) { std::pair<Integer, Integer> p(a, b); Random::shuffle(p); a = p.first; b = p.second; }
Integer d_rotate(std::vector<Integer>& v) { return Random::rotate(v); }
std::vector<Integer> d_perm(Integer count, Integer offset) { return Random::perm(count, offset); }
std::vector<Integer> d_perm0(Integer count) { return Random::perm(count); }
}
