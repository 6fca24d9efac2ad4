#include "io.h"
#include <cerrno>
using namespace fz;
static bool feq(Real g, Real e, Real a, Real r) { if (std::isfinite(g) && std::isfinite(e)) { Real d = std::abs(g - e), q = std::abs((g - e) / e); return d <= a || q <= r; } if (std::isnan(g) && std::isnan(e)) return true; return std::isinf(g) && std::isinf(e) && std::signbit(g) == std::signbit(e); }
static std::string word(std::size_t n) { std::string s; for (std::size_t i = 0; i < n; i++) s += rnd() % 8 ? (char)("abzABZ09-_."[rnd() % 11]) : (char)(33 + rnd() % 94); return s; }
static void str(std::string in, std::string e) {
	std::size_t p = rnd() % 6 ? 0 : rnd() % (in.size() + 1);
	for (int k = 0; k < 4; k++) {
		bool ss = k & 1, cs = k & 2; kase("expectString(%s) at %zu of %s%s%s", esc(e).c_str(), p, esc(in).c_str(), ss ? ", white space significant" : "", cs ? ", case sensitive" : "");
		std::istringstream is(in); is.seekg(p); std::ostringstream os; OutputStream out(os); InputStream s(is, ss, cs, out, Verdicts::Verdict(47));
		int v = verdict([&] { s.expectString(e); }); bool tok = !e.empty(); for (char c : e) if (sp(c)) tok = false;
		if (!tok) { CHECK(v == -2, "accepted an expected text that is no token"); continue; }
		Sim o{in, p, ss, cs}; bool ok = o.token() && o.tok == (cs ? e : fold(e));
		CHECK(v == (ok ? -1 : 47), v == -1 ? "accepted" : v == 47 ? "rejected" : "wrong verdict or exception " + std::to_string(v));
		if (ok && v == -1) { is.clear(); CHECK((std::size_t)is.tellg() == o.p, "next position " + std::to_string((long)is.tellg()) + " instead of " + std::to_string(o.p)); }
	}
}
static void num(std::string in, i64 e, Real x, Real a, Real r) {
	std::string t = in; while (!t.empty() && sp(t.back())) t.pop_back(); Real g = std::strtold(t.c_str(), nullptr);
	for (int m = 0; m < 2; m++) {
		kase("%s(%lld / %.25Lg) on %s tolerances %Lg %Lg", m ? "expectReal" : "expectInt", e, x, esc(in).c_str(), a, r);
		std::istringstream is(in); std::ostringstream os; OutputStream out(os); InputStream s(is, true, true, out, Verdicts::Verdict(47), a, r);
		int v = verdict([&] { if (m) s.expectReal(x); else s.expectInt(e); }); bool ok = m ? feq(g, x, a, r) : t == std::to_string(e);
		CHECK(v == (ok ? -1 : 47), v == -1 ? "accepted" : v == 47 ? "rejected" : "wrong verdict or exception " + std::to_string(v));
		if (v == -1) { is.clear(); CHECK((std::size_t)is.tellg() == t.size(), "next position"); }
	}
}
void fz::search() {
	str("", ""); str("a", ""); str("a", "a b"); str("a b", "a"); str("a", "\v");
	for (int n = 0; n < 60; n++) for (int m = 0; m < 60; m++) { std::string a = word(n), b = n && rnd() % 4 ? a.substr(0, std::min(n, m)) : ""; b += word(m - (int)b.size()); str(a, b); }
	for (int c = 0; c < 256; c++) for (int d : {c, c ^ 32, c + 1}) { str(std::string("x") + (char)c + "y", std::string("x") + (char)d + "y"); str(std::string(1, (char)c), std::string(1, (char)d)); }
	while (more()) {
		std::string a = word(rnd() % 50), b = a; for (int k = rnd() % 3; k > 0 && !b.empty(); k--) { char& c = b[rnd() % b.size()]; if (rnd() % 2) c ^= 32; else c = (char)rnd(); } if (rnd() % 8 == 0) b += word(rnd() % 3); if (rnd() % 8 == 0 && !b.empty()) b.pop_back(); if (rnd() % 10 == 0) a = text(2) + a + text(2);
		str(a, b);
		i64 x = pick(), y = rnd() % 2 ? x : rnd() % 2 ? (i64)((u64)x + rnd() % 3 - 1) : pick(); static const Real E[] = {0, 1, -1, 1.5L, 100, 1e-9L, 1e18L, -2.5L, NAN, INFINITY, -0.0L}; static const Real TL[] = {0, 1e-6L, 1e-3L, 0.5L, INFINITY}; num(std::to_string(y) + (rnd() % 2 ? "\n" : ""), x, rnd() % 2 ? (Real)x : E[rnd() % 11], TL[rnd() % 5], TL[rnd() % 5]);
		Real w = E[rnd() % 8], d = w + (rnd() % 2 ? 0 : TL[1 + rnd() % 3] * (Real)(rnd() % 3) / 2 * (rnd() % 2 ? 1 : std::abs(w))); std::ostringstream q; q << std::fixed << std::setprecision(20) << d; std::string t = q.str(); kase("expectReal"); { std::istringstream is(t); std::ostringstream os; OutputStream out(os); Real A = TL[rnd() % 5], R = TL[rnd() % 5], g = std::strtold(t.c_str(), nullptr); InputStream s(is, true, true, out, Verdicts::Verdict(47), A, R); kase("expectReal(%.25Lg) on %s tolerances %Lg %Lg", w, t.c_str(), A, R); int v = verdict([&] { s.expectReal(w); }); CHECK(v == (feq(g, w, A, R) ? -1 : 47), v == -1 ? "accepted" : "rejected"); }
	}
}
