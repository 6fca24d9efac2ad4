#include "validate.h"
using P = std::pair<Integer, Integer>;
extern "C" {
Integer d_cross(const P& p, P a, P b) { return cross(p, a, b); }
Integer d_cross2(const P& a, const P& b) { return cross(a, b); }
bool d_asc(const P& a, const P& b) { return details::ascending(a, b); }
std::size_t d_bounds(const std::vector<P>& v) { return details::assertBounds(v.begin(), v.end()); }
bool d_convex(const std::vector<P>& v) { return isConvex(v); }
bool d_strict(const std::vector<P>& v) { return isStrictlyConvex(v); }
bool d_ccw(const std::vector<P>& v) { return isCCW(v); }
}
