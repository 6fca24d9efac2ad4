#include "io.h"
using namespace fz;
static bool num(const std::string& t, i64& v) { // 0 or -?[1-9][0-9]*, and representable
	std::size_t b = !t.empty() && t[0] == '-'; if (b == t.size()) return false; for (std::size_t i = b; i < t.size(); i++) if (t[i] < '0' || t[i] > '9') return false;
	if (t[b] == '0' && t != "0") return false; if (t.size() > 25) return false; i128 x = 0; for (std::size_t i = b; i < t.size(); i++) x = x * 10 + (t[i] - '0'); if (b) x = -x; if (x < INT64_MIN || x > INT64_MAX) return false; v = (i64)x; return true;
}
static std::string word() {
	switch (rnd() % 8) {
		case 0: { static const char* w[] = {"0", "-0", "+0", "00", "-", "+", "", "01", "+1", "-01", "1.0", "1e3", "0x10", "--1", "-+1", "+-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999", "1a", "a1", "1\x01", "10000000000000000000"}; return w[rnd() % 26]; }
		case 1: { std::string s = std::to_string(pick()); if (!s.empty()) s[rnd() % s.size()] = "0123456789-+.e"[rnd() % 14]; return s; }
		case 2: return std::to_string(pick()) + (char)('0' + rnd() % 10);
		case 3: return std::to_string((i64)(rnd() % 7) - 3);
		default: return std::to_string(pick());
	}
}
static void trial(std::string in, i64 lo, i64 up, i64 n, char sep) {
	std::size_t p = rnd() % 4 ? 0 : rnd() % (in.size() + 1); bool ss = rnd() % 4, cs = rnd() % 2;
	for (int m = 0; m < 6; m++) {
		bool list = m >= 3, range = m % 3 >= 1, con = m % 3 == 2;
		kase("%s(%s%s%s) lower %lld upper %lld count %lld separator %d at %zu of %s%s", list ? "integers" : "integer", range ? "lower upper " : "", con ? "constraint " : "", list ? "count separator" : "", lo, up, n, sep, p, esc(in).c_str(), ss ? ", white space significant" : "");
		std::istringstream is(in); is.seekg(p); std::ostringstream os; OutputStream out(os); InputStream s(is, ss, cs, out, Verdicts::Verdict(47)); std::vector<Integer> r; Watch w; Constraint& c = w.c();
		int v = verdict([&] {
			switch (m) {
				case 0: r = {s.integer()}; break; case 1: r = {s.integer(lo, up)}; break; case 2: r = {s.integer(lo, up, c)}; break;
				case 3: r = s.integers(n, sep); break; case 4: r = s.integers(lo, up, n, sep); break; case 5: r = s.integers(lo, up, c, n, sep); break;
			}
		});
		if (list && sep != ' ' && sep != '\n') { CHECK(v == -2, "accepted an invalid separator"); continue; }
		Sim o{in, p, ss, cs}; std::vector<Integer> e; std::vector<std::array<i64, 3>> l; i64 cnt = list ? n : 1;
		for (i64 i = 0; i < cnt && o.ok; i++) {
			i64 x; if (!o.token()) break;
			if (!num(o.tok, x) || (range && (x < lo || x >= up))) { o.ok = false; break; }
			e.push_back(x); if (con) l.push_back({lo, up, x});
			if (i + 1 < cnt) o.sep(sep);
		}
		CHECK(v == (o.ok ? -1 : 47), v == -1 ? "accepted " + show(r) : v == 47 ? "rejected" : "wrong verdict or exception " + std::to_string(v));
		if (o.ok && v == -1) { CHECK(r == e, "returned " + show(r) + " instead of " + show(e)); is.clear(); CHECK((std::size_t)is.tellg() == o.p, "next position " + std::to_string((long)is.tellg()) + " instead of " + std::to_string(o.p)); std::string g = w.seen(), x = Watch::expect(l); CHECK(g == x, "constraint saw" + g + " instead of" + x); }
	}
}
void fz::search() {
	while (more()) {
		for (int t = 0; t < 4; t++) { std::string s = word(); i64 x = 0; bool ok = num(s, x); kase("isInteger(%s)", esc(s).c_str()); auto r = isInteger(s); CHECK(bool(r) == ok && r.hasReason() == ok, "returns " + std::to_string(bool(r))); if (r.hasReason()) CHECK(*r.reason == x, "value " + std::to_string(*r.reason)); if (!s.empty() && s[0] != '+') { i64 y = 7; kase("details::parse<Integer>(%s)", esc(s).c_str()); bool b = details::parse<Integer>(s, (Integer&)y); if (ok) CHECK(b && y == x, "value " + std::to_string(y)); } }
		char sep = rnd() % 2 ? ' ' : rnd() % 6 ? '\n' : (char)rnd(); i64 lo = pick(), up = rnd() % 2 ? pick() : rnd() % 2 ? INT64_MAX : (i64)((u64)lo + rnd() % 9); if (lo > up && rnd() % 4) std::swap(lo, up); if (rnd() % 4 == 0) lo = -1000000, up = INT64_MAX; if (lo == INT64_MIN) lo++; if (up == INT64_MIN) up++;
		std::string in = rnd() % 6 ? tokens([&] { return rnd() % 6 ? std::to_string(pick(lo, lo < up && up > INT64_MIN ? up - 1 : INT64_MAX)) : word(); }, rnd() % 10 ? sep : ' ') : text(8);
		if (rnd() % 5 == 0) in = tokens(word, sep);
		trial(in, lo, up, rnd() % 5, sep);
	}
}
