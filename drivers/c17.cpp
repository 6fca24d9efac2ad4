#include "validate.h"
extern "C" {
std::string d_string(Integer n, std::string_view a) { return Random::string(n, a); }
std::string d_string1(Integer n) { return Random::string(n); }
std::string d_bracket(Integer n, char open, char close) { return Random::bracketSequence(n, open, close); }
Integer d_select(const std::vector<Integer>& v) { return Random::select(v); }
Integer* d_selectRef(std::vector<Integer>& v) { return &Random::select(v); }
Integer d_selectPair(Integer a, Integer b) { return Random::select(std::pair<Integer, Integer>(a, b)); }
}
