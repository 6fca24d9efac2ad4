#include "io.h"
using namespace fz;
static std::string word() { static const char* w[] = {"a", "b", "ab", "aab", "abb", "AB", "Ab1", "x", "aaaa", "q-7", "bbbbbbbb"}; return w[rnd() % 11]; }
static bool match(const std::string& t) { for (char c : t) if (c != 'a' && c != 'b') return false; return !t.empty(); }
static void trial(std::string in, i64 lo, i64 up, i64 n, char sep) {
	static const std::regex re("[ab]+");
	std::size_t p = rnd() % 4 ? 0 : rnd() % (in.size() + 1); bool ss = rnd() % 4, cs = rnd() % 2;
	for (int m = 0; m < 11; m++) {
		bool list = m >= 5; int k = list ? (m == 5 ? -1 : m - 6) : m; // k: 0 length, 1 length+constraint, 2 pattern, 3 pattern+length, 4 pattern+length+constraint
		bool len = k == 0 || k == 1 || k >= 3, pat = k >= 2, con = k == 1 || k == 4;
		kase("%s(%s%s%s%s) lower %lld upper %lld count %lld separator %d at %zu of %s%s%s", list ? "strings" : "string", pat ? "[ab]+ " : "", len ? "lower upper " : "", con ? "constraint " : "", list ? "count separator" : "", lo, up, n, sep, p, esc(in).c_str(), ss ? ", white space significant" : "", cs ? ", case sensitive" : "");
		std::istringstream is(in); is.seekg(p); std::ostringstream os; OutputStream out(os); InputStream s(is, ss, cs, out, Verdicts::Verdict(47)); std::vector<std::string> r; Watch w; Constraint& c = w.c();
		int v = verdict([&] {
			switch (m) {
				case 0: r = {s.string(lo, up)}; break; case 1: r = {s.string(lo, up, c)}; break; case 2: r = {s.string(re)}; break; case 3: r = {s.string(re, lo, up)}; break; case 4: r = {s.string(re, lo, up, c)}; break;
				case 5: r = s.strings(n, sep); break; case 6: r = s.strings(lo, up, n, sep); break; case 7: r = s.strings(lo, up, c, n, sep); break; case 8: r = s.strings(re, n, sep); break; case 9: r = s.strings(re, lo, up, n, sep); break; case 10: r = s.strings(re, lo, up, c, n, sep); break;
			}
		});
		if (list && sep != ' ' && sep != '\n') { CHECK(v == -2, "accepted an invalid separator"); continue; }
		Sim o{in, p, ss, cs}; std::vector<std::string> e; std::vector<std::array<i64, 3>> l; i64 cnt = list ? n : 1;
		for (i64 i = 0; i < cnt && o.ok; i++) {
			if (!o.token()) break;
			if ((len && ((i64)o.tok.size() < lo || (i64)o.tok.size() >= up)) || (pat && !match(o.tok))) { o.ok = false; break; }
			e.push_back(o.tok); if (con) l.push_back({lo, up, (i64)o.tok.size()});
			if (i + 1 < cnt) o.sep(sep);
		}
		CHECK(v == (o.ok ? -1 : 47), v == -1 ? "accepted " + show(r) : v == 47 ? "rejected" : "wrong verdict or exception " + std::to_string(v));
		if (o.ok && v == -1) { CHECK(r == e, "returned " + show(r) + " instead of " + show(e)); is.clear(); CHECK((std::size_t)is.tellg() == o.p, "next position " + std::to_string((long)is.tellg()) + " instead of " + std::to_string(o.p)); std::string g = w.seen(), x = Watch::expect(l); CHECK(g == x, "constraint saw" + g + " instead of" + x); }
	}
}
void fz::search() {
	std::string in;
	while (more()) {
		char sep = rnd() % 2 ? ' ' : rnd() % 6 ? '\n' : (char)rnd(); i64 lo = rnd() % 4, up = rnd() % 8; if (rnd() % 8 == 0) lo = pick(), up = pick(); if (lo == INT64_MIN) lo++; if (up == INT64_MIN) up++;
		if (rnd() % 5 == 0) in = text(8); else in = tokens(word, rnd() % 10 ? sep : ' ');
		trial(in, lo, up, rnd() % 5, sep);
	}
}
