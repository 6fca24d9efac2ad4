#include "io.h"
#include <cerrno>
using namespace fz;
static bool digits(const std::string& s, std::size_t& i) { std::size_t b = i; while (i < s.size() && '0' <= s[i] && s[i] <= '9') i++; return i > b; }
static bool lang(const std::string& s) { // [+-]? digits with at most one point [exponent]
	std::size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; bool a = digits(s, i), b = false; if (i < s.size() && s[i] == '.') { i++; b = digits(s, i); } if (!a && !b) return false;
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; if (!digits(s, i)) return false; } return i == s.size();
}
static bool strict(const std::string& s, i64& dec) {
	std::size_t i = 0; if (i < s.size() && s[i] == '-') i++; std::size_t b = i; if (!digits(s, i)) return false; if (s[b] == '0' && i - b > 1) return false; dec = 0; if (i < s.size() && s[i] == '.') { i++; std::size_t d = i; digits(s, i); dec = i - d; } return i == s.size();
}
static bool feq(Real g, Real e, Real a, Real r) { if (std::isfinite(g) && std::isfinite(e)) { Real d = std::abs(g - e), q = std::abs((g - e) / e); return d <= a || q <= r; } if (std::isnan(g) && std::isnan(e)) return true; return std::isinf(g) && std::isinf(e) && std::signbit(g) == std::signbit(e); }
static bool value(const std::string& t, Real& v) { errno = 0; v = std::strtold(t.c_str(), nullptr); return errno == 0; } // false: at the border of the format, not decided here
static std::string word() {
	static const char* w[] = {"0", "-0", "+0", "1.", ".5", "-.5", ".", "-", "+", "e5", "1e5", "1E-5", "1e+5", "1e", "1e+", "+1.5", "-1.50", "00.5", "01", "1.2.3", "0x1p3", "nan", "inf", "-inf", "infinity", "1.5f", "1,5", "-0.0", "0.", "+.1", "1e5.0", "1 .5", "0e0", "--1", "+-1", "-+1", "3.14159265358979323846", "1.000000000000000000000001", "1e4000", "10.00", "1.0000000000000000000000000000000000000000000000000000000000000000000001"};
	switch (rnd() % 6) {
		case 0: return w[rnd() % 41];
		case 1: { std::string s = w[rnd() % 41]; s[rnd() % s.size()] = "0123456789-+.eE"[rnd() % 15]; return s; }
		case 2: return std::to_string((i64)(rnd() % 21) - 10);
		default: { std::string s = std::to_string((i64)(rnd() % 21) - 10); s += '.'; for (int k = rnd() % 5; k > 0; k--) s += (char)('0' + rnd() % 10); return s; }
	}
}
static void trial(std::string in, Real lo, Real up, i64 mn, i64 mx, i64 n, char sep, Real ab, Real re) {
	std::size_t p = rnd() % 4 ? 0 : rnd() % (in.size() + 1); bool ss = rnd() % 4, cs = rnd() % 2;
	for (int m = 0; m < 10; m++) {
		bool list = m >= 5, range = m % 5 == 1 || m % 5 == 2, st = m % 5 >= 3, con = m % 5 == 2 || m % 5 == 4;
		kase("%s%s(%s%s%s) lower %.20Lg upper %.20Lg decimals [%lld, %lld) tolerances %Lg %Lg count %lld separator %d at %zu of %s%s", list ? "reals" : "real", st ? "Strict" : "", range || st ? "lower upper " : "", con ? "constraint " : "", list ? "count separator" : "", lo, up, mn, mx, ab, re, n, sep, p, esc(in).c_str(), ss ? ", white space significant" : "");
		std::istringstream is(in); is.seekg(p); std::ostringstream os; OutputStream out(os); InputStream s(is, ss, cs, out, Verdicts::Verdict(47), ab, re); std::vector<Real> r; Watch w; Constraint& c = w.c();
		int v = verdict([&] {
			switch (m) {
				case 0: r = {s.real()}; break; case 1: r = {s.real(lo, up)}; break; case 2: r = {s.real(lo, up, c)}; break; case 3: r = {s.realStrict(lo, up, mn, mx)}; break; case 4: r = {s.realStrict(lo, up, mn, mx, c)}; break;
				case 5: r = s.reals(n, sep); break; case 6: r = s.reals(lo, up, n, sep); break; case 7: r = s.reals(lo, up, c, n, sep); break; case 8: r = s.realsStrict(lo, up, mn, mx, n, sep); break; case 9: r = s.realsStrict(lo, up, mn, mx, c, n, sep); break;
			}
		});
		if (list && sep != ' ' && sep != '\n') { CHECK(v == -2, "accepted an invalid separator"); continue; }
		Sim o{in, p, ss, cs}; std::vector<Real> e; i64 cnt = list ? n : 1; bool known = true; bool hm = false, hM = false; Real a = 0, b = 0;
		for (i64 i = 0; i < cnt && o.ok && known; i++) {
			Real x; i64 d = 0; if (!o.token()) break;
			if (st ? !strict(o.tok, d) || d < mn || d >= mx : !lang(o.tok)) { o.ok = false; break; }
			if (!value(o.tok, x)) { known = false; break; }
			if (st ? !(x >= lo && x < up) : range && !feq(x, lo, ab, re) && !feq(x, up, ab, re) && !(x >= lo && x < up)) { o.ok = false; break; }
			hm |= feq(x, lo, DEFAULT_EPS, DEFAULT_EPS); hM |= feq(x, up, DEFAULT_EPS, DEFAULT_EPS); a = e.empty() ? x : std::min(a, x); b = e.empty() ? x : std::max(b, x);
			e.push_back(x); if (i + 1 < cnt) o.sep(sep);
		}
		if (!known) continue;
		CHECK(v == (o.ok ? -1 : 47), v == -1 ? "accepted " + show(r) : v == 47 ? "rejected" : "wrong verdict or exception " + std::to_string(v));
		if (o.ok && v == -1) {
			CHECK(r == e, "returned " + show(r) + " instead of " + show(e)); for (std::size_t i = 0; i < r.size() && i < e.size(); i++) CHECK(std::signbit(r[i]) == std::signbit(e[i]), "sign of zero");
			is.clear(); CHECK((std::size_t)is.tellg() == o.p, "next position " + std::to_string((long)is.tellg()) + " instead of " + std::to_string(o.p));
			std::string g = w.seen(), x; if (con && !e.empty()) { std::ostringstream q; q << std::fixed << std::setprecision(DEFAULT_PRECISION) << " " << hm << " " << hM << " " << a << " " << b << " " << lo << " " << up; x = q.str(); }
			CHECK(g == x, "constraint saw" + g + " instead of" + x);
		}
	}
}
void fz::search() {
	while (more()) {
		for (int t = 0; t < 4; t++) { std::string s = word(); Real x = 0; bool ok = lang(s); kase("isReal(%s)", esc(s).c_str()); auto r = isReal(s); if (ok && !value(s, x)) continue; CHECK(bool(r) == ok && r.hasReason() == ok, "returns " + std::to_string(bool(r))); if (r.hasReason()) CHECK(*r.reason == x && std::signbit(*r.reason) == std::signbit(x), "value"); if (ok) { Real y = 7; kase("details::parse<Real>(%s)", esc(s).c_str()); bool b = details::parse<Real>(s, y); CHECK(b && y == x, "value"); } }
		char sep = rnd() % 2 ? ' ' : rnd() % 6 ? '\n' : (char)rnd(); static const Real L[] = {-10, 0, -1.5, 0.25, 1, -1000, 3.14159265358979323846L, -2}; Real lo = L[rnd() % 8], up = rnd() % 3 ? 10 : L[rnd() % 8]; if (rnd() % 3 == 0) lo = -100000, up = 100000; if (rnd() % 20 == 0) up = NAN; if (rnd() % 20 == 0) lo = rnd() % 2 ? -INFINITY : NAN;
		if (up < lo && rnd() % 4) std::swap(lo, up);
		std::string in = tokens([&] { if (rnd() % 6 == 0) { std::ostringstream q; q << (rnd() % 2 ? lo : up); if (rnd() % 2) q << "0000001"; if (rnd() % 2) { q.str(""); Real b = rnd() % 2 ? lo : up, t = rnd() % 2 ? 5e-7L : 2e-6L; q << std::fixed << std::setprecision(12) << b + (rnd() % 2 ? -1 : 1) * (rnd() % 2 ? t : t * b); } return q.str(); } return word(); }, rnd() % 10 ? sep : ' '); if (rnd() % 12 == 0) in = text(8);
		trial(in, lo, up, rnd() % 4 ? 0 : rnd() % 3, rnd() % 4 ? 60 : rnd() % 4, rnd() % 4, sep, rnd() % 2 ? 0 : 1e-6L, rnd() % 2 ? 0 : 1e-6L);
	}
}
