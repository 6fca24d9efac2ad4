#include "validate.h"
#include <new>
struct CMD { Integer first, count; bool found, hasToken; std::string_view token; };
struct PAR { bool has; std::string_view token; };
static void put(CMD& r, const Command& c) { r.first = c.first; r.count = c.count; r.found = c.exists() && static_cast<bool>(c); r.hasToken = c.token.has_value(); r.token = r.hasToken ? *c.token : EMPTY_COMMAND; if (c.parameterCount() != c.count) r.count = -1; }
extern "C" {
bool d_isCommand(const std::string& s) { return CommandParser::isCommand(s); }
void d_parse(CommandParser& p, int argc, char** argv) { new (&p) CommandParser(argc, argv); }
void d_get(CMD& r, const CommandParser& p, std::string_view s) { put(r, p[s]); }
void d_getRaw(CMD& r, const CommandParser& p, std::string_view s) { put(r, p.getRaw(s)); }
void d_getAll(CMD& r, const CommandParser& p) { put(r, p.getRaw()); }
void d_index(PAR& r, const CommandParser& p, Integer t) { r.token = p[t]; }
void d_param(PAR& r, const std::vector<std::string>& raw, Integer first, Integer count, Integer i) { Parameter q = Command(raw, first, count)[i]; r.has = q.exists() && static_cast<bool>(q); r.token = r.has ? *q.token : EMPTY_COMMAND; }
void d_asString(std::string& r, const Parameter& p) { r = p.asString(); }
void d_asStringD(std::string& r, const Parameter& p, std::string_view d) { r = p.asString(d); }
Integer d_asInteger(const Parameter& p) { return p.asInteger(); }
Integer d_asIntegerD(const Parameter& p, Integer d) { return p.asInteger(d); }
Real d_asReal(const Parameter& p) { return p.asReal(); }
Real d_asRealD(const Parameter& p, Real d) { return p.asReal(d); }
std::vector<Integer> d_ints(const std::vector<std::string>& raw, Integer first, Integer count) { return Command(raw, first, count).asIntegers(); }
std::vector<Real> d_reals(const std::vector<std::string>& raw, Integer first, Integer count) { return Command(raw, first, count).asReals(); }
std::vector<std::string> d_strings(const std::vector<std::string>& raw, Integer first, Integer count) { return Command(raw, first, count).asStrings(); }
void d_two(Integer& a, Integer& b, const std::vector<std::string>& raw, Integer first, Integer count) { auto t = Command(raw, first, count).asIntegers<2>(); a = std::get<0>(t); b = std::get<1>(t); }
void d_twos(std::string& a, std::string& b, const std::vector<std::string>& raw, Integer first, Integer count) { auto t = Command(raw, first, count).asStrings<2>(); a = std::get<0>(t); b = std::get<1>(t); }
void d_three(Real& a, Real& b, Real& c, const std::vector<std::string>& raw, Integer first, Integer count) { auto t = Command(raw, first, count).asReals<3>(); a = std::get<0>(t); b = std::get<1>(t); c = std::get<2>(t); }
}
