#include "validate.h"
using VI = std::vector<Integer>;
using VS = std::vector<std::string>;
using VR = std::vector<Real>;
extern "C" {
void d_range(OutputStream& os, const VI& v, Integer a, Integer b, char sep) { os.join(v.begin() + a, v.begin() + b, sep); }
void d_strings(OutputStream& os, const VS& v, char sep) { os.join(v.begin(), v.end(), sep); }
void d_reals(OutputStream& os, const VR& v, char sep) { os.join(v.begin(), v.end(), sep); }
void d_vec(OutputStream& os, const VI& v) { os << v; }
void d_pair(OutputStream& os, Integer a, Real b) { os << std::pair<Integer, Real>(a, b); }
void d_tuple(OutputStream& os, Integer a, Real b, char c, Integer d) { os << std::tuple<Integer, Real, char, Integer>(a, b, c, d); }
void d_tuplesep(OutputStream& os, Integer a, Real b, Integer c, char sep) { os.join(std::tuple<Integer, Real, Integer>(a, b, c), std::index_sequence_for<Integer, Real, Integer>(), sep); }
void d_nested(OutputStream& os, Integer a, Integer b, Integer c) { os << std::pair<std::pair<Integer, Integer>, Integer>({a, b}, c); }
void d_single(OutputStream& os, Integer a, char c, Real r) { os << a << c << r; }
void d_array(OutputStream& os, Integer a, Integer b, Integer c) { Integer v[3] = {a, b, c}; os << v; }
void d_jrange(OutputStream& os, const VI& v, Integer a, Integer b, char sep) { os << join(v.begin() + a, v.begin() + b, sep); }
void d_jvec(OutputStream& os, const VI& v, char sep) { os << join(v, sep); }
void d_jdef(OutputStream& os, const VI& v) { os << join(v); }
void d_jtuple(OutputStream& os, Integer a, Real b, Integer c, char sep) { os << join(std::tuple<Integer, Real, Integer>(a, b, c), sep); }
void d_jpair(OutputStream& os, Integer a, Real b) { std::pair<Integer, Real> p(a, b); os << join(p); }
}
