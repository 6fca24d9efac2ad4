#include <bits/stdc++.h>
#define private public
#include "validate.h"
#undef private
#include <csetjmp>
#include "fz.h"
// exit is interposed: while armed it jumps back and tells the exit code
static std::jmp_buf back; static volatile bool armed = false; static volatile int code = 0;
extern "C" void exit(int c) noexcept { if (armed) { armed = false; code = c; std::longjmp(back, 1); } std::fflush(stdout); _exit(c); }
using namespace fz;
template<typename F> static int exits(F f) { code = -1; if (!setjmp(back)) { armed = true; try { f(); code = -1; } catch (const std::exception& e) { code = -2; } armed = false; } return code; }
struct Pipe : std::streambuf { std::string s; bool seek; Pipe(const std::string& t, bool k) : s(t), seek(k) { setg(s.data(), s.data(), s.data() + s.size()); }
	pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override { if (!seek) return -1; if (d == std::ios_base::cur) o += gptr() - eback(); if (o < 0 || o > (off_type)s.size()) return -1; setg(eback(), eback() + o, egptr()); return o; }
	pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(p, std::ios_base::beg, m); } };
static std::string esc(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { char b[8]; if (c >= 32 && c < 127 && c != '\\') r += c; else { std::snprintf(b, 8, "\\x%02x", c); r += b; } } return (r.size() > 600 ? r.substr(0, 600) + "..." : r) + "\""; }
static std::ostringstream* sink;
static void trial(const std::string& in, std::size_t p, bool seek, bool eof) {
	kase("failing read at position %zu of %s%s%s", p, esc(in).c_str(), seek ? "" : " (not seekable)", eof ? ", end of file reached" : "");
	Pipe b(in, seek); std::istream is(&b); for (std::size_t i = 0; i < p; i++) is.get(); if (eof) is.setstate(std::ios::eofbit);
	sink->str(""); OutputStream out(*sink); int c = (int)(rnd() % 200); InputStream* s = new InputStream(is, rnd() % 2, rnd() % 2, out, Verdicts::Verdict(c));
	int r = exits([&] { s->fail(); }); CHECK(r == c, r == -2 ? "throws" : r == -1 ? "returns" : "exit code " + std::to_string(r)); delete s;
}
void fz::search() {
	details::initialized(true); sink = new std::ostringstream();
	for (int c : {42, 43, 1, 0, 7, 255, -1, 256, 1 << 20}) { kase("Verdict(%d)", c); sink->str(""); OutputStream out(*sink);
		CHECK(exits([&] { Verdicts::Verdict(c).exit(); }) == c, "exit() ends with another code"); CHECK(exits([&] { *sink << Verdicts::Verdict(c); }) == c, "printing to an ostream ends with another code"); CHECK(exits([&] { out << Verdicts::Verdict(c); }) == c, "printing to an OutputStream ends with another code"); }
	kase("verdict constants"); CHECK(Verdicts::AC == 42 && Verdicts::WA == 43 && Verdicts::PE == 43 && Verdicts::FAIL == 1, "wrong exit code");
	trial("", 0, true, false);
	while (more()) {
		std::string t; int n = rnd() % 3 ? rnd() % 12 : rnd() % 300; int m = rnd() % 8;
		for (int i = 0; i < n; i++) { int z = rnd() % (m == 0 ? 4 : m == 1 ? 60 : m == 2 ? 200 : 12); t += z == 0 ? ' ' : z == 1 ? '\n' : z == 2 ? "\t\r\x01\xff\x80\0\v"[rnd() % 7] : (char)('a' + rnd() % 26); }
		for (int k = 0; k < 8; k++) trial(t, rnd() % (t.size() + 1), rnd() % 6, rnd() % 4 == 0);
		trial(t, t.size(), true, rnd() % 2);
	}
}
