#include "validate.h"
#define S(call) InputStream s(in, ss, cs, out, Verdicts::Verdict(code)); return s.call
#define A std::istream& in, bool ss, bool cs, OutputStream& out, int code
extern "C" {
std::string d_len(A, Integer lo, Integer up) { S(string(lo, up)); }
std::string d_lenC(A, Integer lo, Integer up, Constraint& c) { S(string(lo, up, c)); }
std::string d_re(A, const std::regex& re) { S(string(re)); }
std::string d_reLen(A, const std::regex& re, Integer lo, Integer up) { S(string(re, lo, up)); }
std::string d_reLenC(A, const std::regex& re, Integer lo, Integer up, Constraint& c) { S(string(re, lo, up, c)); }
std::vector<std::string> d_n(A, Integer n, char sep) { S(strings(n, sep)); }
std::vector<std::string> d_nLen(A, Integer lo, Integer up, Integer n, char sep) { S(strings(lo, up, n, sep)); }
std::vector<std::string> d_nLenC(A, Integer lo, Integer up, Constraint& c, Integer n, char sep) { S(strings(lo, up, c, n, sep)); }
std::vector<std::string> d_nRe(A, const std::regex& re, Integer n, char sep) { S(strings(re, n, sep)); }
std::vector<std::string> d_nReLen(A, const std::regex& re, Integer lo, Integer up, Integer n, char sep) { S(strings(re, lo, up, n, sep)); }
std::vector<std::string> d_nReLenC(A, const std::regex& re, Integer lo, Integer up, Constraint& c, Integer n, char sep) { S(strings(re, lo, up, c, n, sep)); }
}
