#include "validate.h"
struct R { Integer pass, prev, next, nextpass; bool space, cas, out, skip; int verdict; Real abs, rel; bool format; };
extern "C" Integer ghost_file(const void*);
extern "C" bool ghost_skip(const void*);
extern "C" bool ghost_format(const void*);
using namespace Multipass;
static void tol(Real a, Real b) { ValidateBase::floatAbsTol.value = a; ValidateBase::floatRelTol.value = b; }
extern "C" {
void d_init(R& r, bool done, Real a, Real b) {
	if (done) ::details::initialized(true);
	tol(a, b);
	Multipass::init();
	r.pass = pass; r.prev = ghost_file(prevstate.in); r.next = ghost_file(nextstate.os); r.nextpass = nextpass.os == &Multipass::details::nextpassBuffer;
	r.format = ghost_format(nextstate.os) && ghost_format(nextpass.os);
	if (prevstate.in) { r.space = prevstate.spaceSensitive; r.cas = prevstate.caseSensitive; r.out = prevstate.out == &juryOut; r.skip = ghost_skip(prevstate.in); r.verdict = prevstate.onFail; r.abs = prevstate.floatAbsTol; r.rel = prevstate.floatRelTol; }
}
void d_next() { NEXT(); }
void d_next_os(std::ostream& os) { NEXT(os); }
}
