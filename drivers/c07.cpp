#include "validate.h"
extern "C" {
bool d_eq(Real g, Real e, Real a, Real r) { return details::floatEqual(g, e, a, r); }
bool d_eq2(Real g, Real e, Real a, Real r) { return ValidateBase::floatEqual(g, e, a, r); }
bool d_less(Real g, Real e, Real a, Real r) { return ValidateBase::floatLess(g, e, a, r); }
bool d_greater(Real g, Real e, Real a, Real r) { return ValidateBase::floatGreater(g, e, a, r); }
}
