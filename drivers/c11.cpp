#include "validate.h"
extern "C" {
Real d_real() { return Random::real(); }
Real d_real1(Real u) { return Random::real(u); }
Real d_real2(Real l, Real u) { return Random::real(l, u); }
Integer d_disc1() { return Random::discrete<7>(); }
Integer d_disc3() { return Random::discrete<1, 2, 3>(); }
Integer d_disc5() { return Random::discrete<0, 5, 0, 2, 0>(); }
Integer d_disc0() { return Random::discrete<0, 0>(); }
Real d_normal2(Real m, Real s) { return Random::normal(m, s); }
Real d_normal4(Real l, Real u, Real m, Real s) { return Random::normal(l, u, m, s); }
Real d_exp1(Real p) { return Random::exponential(p); }
Real d_exp3(Real l, Real u, Real p) { return Random::exponential(l, u, p); }
Integer d_geo1(Real p) { return Random::geometric(p); }
Integer d_geo3(Integer l, Integer u, Real p) { return Random::geometric(l, u, p); }
Integer d_bin2(Integer n, Real p) { return Random::binomial(n, p); }
Integer d_bin4(Integer l, Integer u, Integer n, Real p) { return Random::binomial(l, u, n, p); }
Integer d_max3(Integer l, Integer u, Integer n) { return Random::maximum(l, u, n); }
Integer d_max2(Integer u, Integer n) { return Random::maximum(u, n); }
Integer d_min3(Integer l, Integer u, Integer n) { return Random::minimum(l, u, n); }
Integer d_min2(Integer u, Integer n) { return Random::minimum(u, n); }
Integer d_mm3(Integer l, Integer u, Integer n) { return Random::minmax(l, u, n); }
Integer d_mm2(Integer u, Integer n) { return Random::minmax(u, n); }
}
