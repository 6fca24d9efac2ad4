#include "validate.h"
struct IS { bool hadMin, hadMax; Integer min, max, lower, upper; };
struct RS { bool hadMin, hadMax; Real min, max, lower, upper; bool isl, isu; };
template<class S, class B> static void put(S& s, const B& b) { s.hadMin = b.hadMin; s.hadMax = b.hadMax; s.min = b.min; s.max = b.max; s.lower = b.lower; s.upper = b.upper; }
template<class S, class B> static void get(B& b, const S& s) { b.hadMin = s.hadMin; b.hadMax = s.hadMax; b.min = s.min; b.max = s.max; b.lower = s.lower; b.upper = s.upper; }
static void eqs(RS& s, Real lo, Real up, Real v) { s.isl = details::floatEqual(v, lo, DEFAULT_EPS, DEFAULT_EPS); s.isu = details::floatEqual(v, up, DEFAULT_EPS, DEFAULT_EPS); }
using VI = std::vector<Integer>;
using VR = std::vector<Real>;
static void setI(Constraint& c, const IS& s) { Bounds<Integer> b(0, 0, 0); get(b, s); c.bound = b; }
static void setR(Constraint& c, const RS& s) { Bounds<Real> b(s.lower, s.upper, s.min); get(b, s); c.bound = b; }
extern "C" {
// first entry of a constraint
std::size_t d_int_first(IS& s, Integer lo, Integer up, Integer v) { Constraint c; c.log(lo, up, v); put(s, std::get<1>(c.bound)); return c.type == details::getTypeIndex<Integer>() ? c.bound.index() : 9; }
std::size_t d_real_first(RS& s, Real lo, Real up, Real v) { eqs(s, lo, up, v); Constraint c; c.log(lo, up, v); put(s, std::get<2>(c.bound)); return c.type == details::getTypeIndex<Real>() ? c.bound.index() : 9; }
std::size_t d_cont_first(IS& s, Integer lo, Integer up, const VI& v) { Constraint c; c.log(lo, up, v); put(s, std::get<1>(c.bound)); return c.type == details::getTypeIndex<VI>() ? c.bound.index() : 9; }
// further entries
std::size_t d_int_next(IS& s, Integer lo, Integer up, Integer v) { Constraint c; c.type = details::getTypeIndex<Integer>(); setI(c, s); c.log(lo, up, v); put(s, std::get<1>(c.bound)); return c.type == details::getTypeIndex<Integer>() ? c.bound.index() : 9; }
std::size_t d_real_next(RS& s, Real lo, Real up, Real v) { eqs(s, lo, up, v); Constraint c; c.type = details::getTypeIndex<Real>(); setR(c, s); c.log(lo, up, v); put(s, std::get<2>(c.bound)); return c.type == details::getTypeIndex<Real>() ? c.bound.index() : 9; }
std::size_t d_cont_next(IS& s, Integer lo, Integer up, const VI& v) { Constraint c; c.type = details::getTypeIndex<VI>(); setI(c, s); c.log(lo, up, v); put(s, std::get<1>(c.bound)); return c.type == details::getTypeIndex<VI>() ? c.bound.index() : 9; }
// entries of another type
void d_int_real(const IS& s, Real lo, Real up, Real v) { Constraint c; c.type = details::getTypeIndex<Integer>(); setI(c, s); c.log(lo, up, v); }
void d_int_cont(const IS& s, Integer lo, Integer up, const VI& v) { Constraint c; c.type = details::getTypeIndex<Integer>(); setI(c, s); c.log(lo, up, v); }
void d_cont_int(const IS& s, Integer lo, Integer up, Integer v) { Constraint c; c.type = details::getTypeIndex<VI>(); setI(c, s); c.log(lo, up, v); }
void d_cont_cont(const IS& s, Integer lo, Integer up, const VR& v) { Constraint c; c.type = details::getTypeIndex<VI>(); setI(c, s); c.log(lo, up, v); }
void d_real_int(const RS& s, Integer lo, Integer up, Integer v) { Constraint c; c.type = details::getTypeIndex<Real>(); setR(c, s); c.log(lo, up, v); }
}
