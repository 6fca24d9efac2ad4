#include "validate.h"
#define S(call) InputStream s(in, ss, cs, out, Verdicts::Verdict(code)); return s.call
#define A std::istream& in, bool ss, bool cs, OutputStream& out, int code
extern "C" {
Integer d_int(A) { S(integer()); }
Integer d_range(A, Integer lo, Integer up) { S(integer(lo, up)); }
Integer d_rangeC(A, Integer lo, Integer up, Constraint& c) { S(integer(lo, up, c)); }
std::vector<Integer> d_n(A, Integer n, char sep) { S(integers(n, sep)); }
std::vector<Integer> d_nRange(A, Integer lo, Integer up, Integer n, char sep) { S(integers(lo, up, n, sep)); }
std::vector<Integer> d_nRangeC(A, Integer lo, Integer up, Constraint& c, Integer n, char sep) { S(integers(lo, up, c, n, sep)); }
bool d_isInteger(const std::string& s, bool& has, Integer& value) { auto r = isInteger(s); has = r.hasReason(); if (has) value = *r.reason; return bool(r); }
bool d_parse(std::string_view s, Integer& res) { return details::parse<Integer>(s, res); }
}
