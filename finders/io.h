// verdicts become exceptions (documented customisation point), so that they can be observed in process
#pragma once
struct VerdictExit { int code; };
namespace Settings { [[noreturn]] inline void exitVerdict(int code) { throw VerdictExit{code}; } }
#include "validate.h"
#include <array>
#include <iomanip>
#include "fz.h"
namespace fz {
// code of the verdict, -1 for a normal return, -2 for an exception
template<typename F> int verdict(F f, std::string* what = nullptr) { try { f(); return -1; } catch (const VerdictExit& v) { return v.code; } catch (const std::exception& e) { if (what) *what = e.what(); return -2; } }
inline std::string esc(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { char b[8]; if (c >= 33 && c < 127 && c != '\\') r += c; else if (c == ' ') r += ' '; else { std::snprintf(b, 8, "\\x%02x", c); r += b; } } return (r.size() > 400 ? r.substr(0, 400) + "..." : r) + "\""; }
inline bool sp(char c) { return c == ' ' || (9 <= c && c <= 13); }
inline bool gr(char c) { return 33 <= c && c <= 126; }
inline std::string fold(std::string s) { for (char& c : s) if ('A' <= c && c <= 'Z') c += 32; return s; }
inline std::string text(std::size_t maxlen) { std::string s; std::size_t n = rnd() % (maxlen + 1); for (std::size_t i = 0; i < n; i++) switch (rnd() % 6) { case 0: s += ' '; break; case 1: s += '\n'; break; case 2: s += "\t\r\v\f\x01\x7f\xff\xa0\0-+.e"[rnd() % 13]; break; case 3: s += (char)('A' + rnd() % 26); break; case 4: s += (char)('0' + rnd() % 10); break; default: s += (char)('a' + rnd() % 26); } return s; }
}
namespace fz {
// oracle for the reading position: what the documentation promises about tokens and separators
struct Sim {
	const std::string& in; std::size_t p; bool ss, cs; bool ok = true; std::string tok;
	std::size_t skip(std::size_t q) const { while (q < in.size() && sp(in[q])) q++; return q; }
	bool token() { std::size_t b = ss ? p : skip(p); if (b >= in.size() || (ss && !gr(in[b]))) return ok = false; std::size_t q = b; while (q < in.size() && !sp(in[q])) q++; tok = in.substr(b, q - b); if (!cs) tok = fold(tok); p = q; return true; }
	bool sep(char c) { if (ss) { if (p >= in.size() || in[p] != c) return ok = false; p++; } return true; }
};
// what a constraint has seen, read back from the file it writes
struct Watch {
	ConstraintsLogger log{"constraints.txt"};
	Constraint& c() { return log["x"]; }
	std::string seen() { log.write(); std::ifstream f("constraints.txt"); std::string a, b, r; f >> a >> b; std::getline(f, r); return r; }
	static std::string expect(const std::vector<std::array<i64, 3>>& v) { if (v.empty()) return ""; bool mn = false, mx = false; i64 lo = v[0][0], up = v[0][1] - 1, a = v[0][2], b = a; for (auto [l, u, x] : v) { u--; mn |= x == l; mx |= x == u; lo = std::min(lo, l); up = std::max(up, u); a = std::min(a, x); b = std::max(b, x); } std::ostringstream o; o << " " << mn << " " << mx << " " << a << " " << b << " " << lo << " " << up; return o.str(); }
};
// text made mostly of tokens and the separator
inline std::string tokens(const std::function<std::string()>& gen, char sep) { std::string s; int n = rnd() % 6; for (int i = 0; i < n; i++) { if (rnd() % 12) s += gen(); if (i + 1 < n || rnd() % 3 == 0) { if (rnd() % 14) s += sep; else s += text(2); } } if (rnd() % 8 == 0) s = text(2) + s; return s; }
}
