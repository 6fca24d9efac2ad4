#include "validate.h"
using namespace ValidateBase;
struct SET { Real abs, rel; bool space, cas, done; };
struct IN { Integer file; bool space, cas, out; int verdict; bool skip; Real abs, rel; };
struct OUT { Integer file; };
extern "C" Integer ghost_file(const void*);     // which file (or standard stream) a stream object stands for: resolved by the verifier
extern "C" bool ghost_skip(const void*);        // its skipws flag
extern "C" bool ghost_format(const void*);      // boolalpha, fixed, default precision
static void put(const SET& s) { floatAbsTol.value = s.abs; floatRelTol.value = s.rel; spaceSensitive.value = s.space; caseSensitive.value = s.cas; }
static void get(SET& s) { s.abs = floatAbsTol; s.rel = floatRelTol; s.space = spaceSensitive; s.cas = caseSensitive; s.done = ::details::initialized(); }
static void get(IN& s, const InputStream& i) { s.file = ghost_file(i.in); s.skip = ghost_skip(i.in); s.space = i.spaceSensitive; s.cas = i.caseSensitive; s.out = i.out == &juryOut; s.verdict = i.onFail; s.abs = i.floatAbsTol; s.rel = i.floatRelTol; }
static void get(OUT& s, const OutputStream& o) { s.file = ghost_format(o.os) ? ghost_file(o.os) : -1; }
extern "C" {
void d_input(SET& s, IN& a, OUT& j, int argc, char** argv) { put(s); InputValidator::init(argc, argv); get(s); get(a, InputValidator::testIn); get(j, juryOut); }
void d_answer(SET& s, IN& a, IN& b, OUT& j, int argc, char** argv) { put(s); AnswerValidator::init(argc, argv); get(s); get(a, AnswerValidator::testIn); get(b, AnswerValidator::ans); get(j, juryOut); }
void d_output(SET& s, IN& a, IN& b, IN& c, OUT& j, OUT& t, int argc, char** argv) { put(s); OutputValidator::init(argc, argv); get(s); get(a, OutputValidator::testIn); get(b, OutputValidator::juryAns); get(c, OutputValidator::teamAns); get(j, juryOut); get(t, OutputValidator::teamOut); }
void d_interactor(SET& s, IN& a, IN& b, OUT& j, OUT& t, OUT& o, int argc, char** argv) { put(s); Interactor::init(argc, argv); get(s); get(a, Interactor::testIn); get(b, Interactor::fromTeam); get(j, juryOut); get(t, Interactor::teamOut); get(o, Interactor::toTeam); }
void d_generator(SET& s, OUT& j, OUT& t, int argc, char** argv) { put(s); Generator::init(argc, argv); get(s); get(j, juryOut); get(t, Generator::testOut); }
bool d_twice(SET& s, int argc, char** argv) { put(s); ::details::initialized(true); ValidateBase::details::init(argc, argv); return true; }
bool d_initialized() { bool a = ::details::initialized(), b = ::details::initialized(true), c = ::details::initialized(), d = ::details::initialized(), e = ::details::initialized(true), f = ::details::initialized(); (void)b; return !a && c && d && e && f; }
void d_real(SET& s, Real v, bool rel, bool after) { put(s); if (after) ::details::initialized(true); (rel ? floatRelTol : floatAbsTol) = v; get(s); }
void d_bool(SET& s, bool v, bool cas, bool after) { put(s); if (after) ::details::initialized(true); if (cas) caseSensitive = v; else spaceSensitive = v; get(s); }
}
