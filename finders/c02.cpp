#include "io.h"
using namespace fz;
static void trial(const std::string& in) {
	for (int ss = 0; ss < 2; ss++) for (int cs = 0; cs < 2; cs++) for (std::size_t p = 0; p <= in.size(); p++) {
		std::size_t w = p; while (w < in.size() && sp(in[w])) w++; std::size_t q = w; while (q < in.size() && !sp(in[q])) q++;
		bool atEnd = ss ? p == in.size() : w == in.size(); char c = p < in.size() ? in[p] : 0;
		for (int m = 0; m < 5; m++) {
			static const char* nm[] = {"eof", "noteof", "space", "newline", "string"};
			kase("%s() at position %zu of %s%s%s", nm[m], p, esc(in).c_str(), ss ? ", white space significant" : "", cs ? ", case sensitive" : "");
			std::istringstream is(in); is.seekg(p); std::ostringstream os; OutputStream out(os); InputStream s(is, ss, cs, out, Verdicts::Verdict(47)); std::string t;
			int v = verdict([&] { if (m == 0) s.eof(); else if (m == 1) s.noteof(); else if (m == 2) s.space(); else if (m == 3) s.newline(); else t = s.string(); });
			bool ok = m == 0 ? atEnd : m == 1 ? !atEnd : m == 2 ? !ss || (p < in.size() && c == ' ') : m == 3 ? !ss || (p < in.size() && c == '\n') : ss ? p < in.size() && gr(c) : !atEnd;
			CHECK(v == (ok ? -1 : 47), v == -1 ? "accepted" : v == 47 ? "rejected" : "wrong verdict or exception " + std::to_string(v));
			if (!ok || v != -1) continue;
			if (m == 4) { std::size_t b = ss ? p : w; std::string e = in.substr(b, q - b); if (!cs) e = fold(e); CHECK(t == e, "returned " + esc(t)); }
			std::size_t next = m == 0 ? in.size() : m == 1 ? 0 : m == 4 ? q : ss ? p + 1 : p;
			is.clear(); if (m != 1) CHECK((std::size_t)is.tellg() == next, "next position " + std::to_string((long)is.tellg()));
			else CHECK((std::size_t)is.tellg() >= p && (std::size_t)is.tellg() <= (ss ? p : w), "skipped more than white space");
		}
	}
}
void fz::search() {
	trial(""); for (int c = 0; c < 256; c++) { trial(std::string(1, c)); trial(std::string(1, c) + "a"); trial("B" + std::string(1, c)); trial("x" + std::string(1, c) + "Y"); trial(std::string(2, c)); }
	while (more()) trial(text(rnd() % 4 ? 6 : 30));
}
