#include "validate.h"
#define S(call) InputStream s(in, ss, cs, out, Verdicts::Verdict(code)); call
extern "C" {
void d_eof(std::istream& in, bool ss, bool cs, OutputStream& out, int code) { S(s.eof()); }
void d_noteof(std::istream& in, bool ss, bool cs, OutputStream& out, int code) { S(s.noteof()); }
void d_space(std::istream& in, bool ss, bool cs, OutputStream& out, int code) { S(s.space()); }
void d_newline(std::istream& in, bool ss, bool cs, OutputStream& out, int code) { S(s.newline()); }
std::string d_string(std::istream& in, bool ss, bool cs, OutputStream& out, int code) { S(return s.string()); }
}
