#include <bits/stdc++.h>
#define private public
#include "validate.h"
#undef private
extern "C" {
void d_fail(std::istream& in, bool ss, bool cs, OutputStream& out, int code) { InputStream s(in, ss, cs, out, Verdicts::Verdict(code)); s.fail(); }
void d_exit(int code) { Verdicts::Verdict(code).exit(); }
void d_os(std::ostream& os, int code) { os << Verdicts::Verdict(code); }
void d_out(OutputStream& os, int code) { os << Verdicts::Verdict(code); }
int d_ac() { return Verdicts::AC; }
int d_wa() { return Verdicts::WA; }
int d_pe() { return Verdicts::PE; }
int d_fl() { return Verdicts::FAIL; }
}
