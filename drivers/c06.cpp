#include "validate.h"
#define S(call) InputStream s(in, ss, cs, out, Verdicts::Verdict(code), ab, re); s.call
#define A std::istream& in, bool ss, bool cs, OutputStream& out, int code, Real ab, Real re
extern "C" {
void d_str(std::string_view e, A) { S(expectString(e)); }
void d_int(A, Integer e) { S(expectInt(e)); }
void d_real(A, Real e) { S(expectReal(e)); }
}
