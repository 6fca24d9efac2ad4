#include "validate.h"
extern "C" {
Integer d_applyMod(Integer x, Integer m) { return applyMod(x, m); }
Integer d_mulMod(Integer a, Integer b, Integer m) { return mulMod(a, b, m); }
UInteger d_mulModU(UInteger a, UInteger b, UInteger m) { return details::mulMod(a, b, m); }
Integer d_powMod(Integer b, Integer e, Integer m) { return powMod(b, e, m); }
UInteger d_powModU(UInteger b, UInteger e, UInteger m) { return details::powMod(b, e, m); }
}
