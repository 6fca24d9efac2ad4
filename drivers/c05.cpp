#include "validate.h"
#define S(call) InputStream s(in, ss, cs, out, Verdicts::Verdict(code), ab, re); return s.call
#define A std::istream& in, bool ss, bool cs, OutputStream& out, int code, Real ab, Real re
extern "C" {
Real d_real(A) { S(real()); }
Real d_range(A, Real lo, Real up) { S(real(lo, up)); }
Real d_rangeC(A, Real lo, Real up, Constraint& c) { S(real(lo, up, c)); }
Real d_strict(A, Real lo, Real up, Integer mn, Integer mx) { S(realStrict(lo, up, mn, mx)); }
Real d_strictC(A, Real lo, Real up, Integer mn, Integer mx, Constraint& c) { S(realStrict(lo, up, mn, mx, c)); }
std::vector<Real> d_n(A, Integer n, char sep) { S(reals(n, sep)); }
std::vector<Real> d_nRange(A, Real lo, Real up, Integer n, char sep) { S(reals(lo, up, n, sep)); }
std::vector<Real> d_nRangeC(A, Real lo, Real up, Constraint& c, Integer n, char sep) { S(reals(lo, up, c, n, sep)); }
std::vector<Real> d_nStrict(A, Real lo, Real up, Integer mn, Integer mx, Integer n, char sep) { S(realsStrict(lo, up, mn, mx, n, sep)); }
std::vector<Real> d_nStrictC(A, Real lo, Real up, Integer mn, Integer mx, Constraint& c, Integer n, char sep) { S(realsStrict(lo, up, mn, mx, c, n, sep)); }
bool d_isReal(const std::string& s, bool& has, Real& value) { auto r = isReal(s); has = r.hasReason(); if (has) value = *r.reason; return bool(r); }
bool d_parse(std::string_view s, Real& res) { return details::parse<Real>(s, res); }
}
