#include "validate.h"
#include "fz.h"
using namespace fz;
static Real pr() {
	static const Real sp[] = {0.0L, -0.0L, 1, -1, INFINITY, -INFINITY, NAN, -NAN, LDBL_MAX, -LDBL_MAX, LDBL_MIN, LDBL_TRUE_MIN, 1e-6L, 1e300L, 1e-300L, 0.5L, 2, 1000000, 1e4900L};
	switch (rnd() % 4) { case 0: return sp[rnd() % 19]; case 1: return (Real)pick(); case 2: return ((Real)(i64)rnd()) * std::pow(2.0L, (int)(rnd() % 200) - 130); default: return (Real)(i64)(rnd() % 41) - 20; }
}
static Real tol() { switch (rnd() % 8) { case 0: return 0; case 1: return 1e-6L; case 2: return 1; case 3: return INFINITY; case 4: return rnd() % 4 ? 0.25L : -1e-9L; case 5: return rnd() % 4 ? 1e-3L : NAN; default: return std::pow(10.0L, -(int)(rnd() % 12)); } }
void fz::search() {
	while (more()) for (int it = 0; it < 3000; it++) {
		Real e = pr(), a = tol(), r = tol(), g;
		switch (rnd() % 6) { case 0: g = pr(); break; case 1: g = e + a; break; case 2: g = e - a; break; case 3: g = e * (1 + r); break; case 4: g = e * (1 - r); break; default: g = rnd() % 2 ? e : -e; }
		if (rnd() % 3 == 0) g = std::nextafter(g, rnd() % 2 ? INFINITY : -INFINITY);
		kase("given %La expected %La abs %La rel %La", g, e, a, r);
		bool ok = a >= 0 && r >= 0, eq = false;
		if (std::isfinite(g) && std::isfinite(e)) { Real d = g - e, q = e != 0 || d != 0 ? std::fabs(d) / std::fabs(e) : NAN; eq = std::fabs(d) <= a || q <= r; }
		else eq = (std::isnan(g) && std::isnan(e)) || (std::isinf(g) && std::isinf(e) && (g > 0) == (e > 0));
		bool v = false; std::string o = outcome([&] { v = rnd() % 2 ? details::floatEqual(g, e, a, r) : ValidateBase::floatEqual(g, e, a, r); });
		CHECK(o == (ok ? "ok" : "domain_error"), "floatEqual: " + o); if (!ok) continue;
		CHECK(v == eq, v ? "floatEqual returned true" : "floatEqual returned false");
		CHECK(ValidateBase::floatLess(g, e, a, r) == (g <= e || eq), "floatLess"); CHECK(ValidateBase::floatGreater(g, e, a, r) == (g >= e || eq), "floatGreater");
	}
}
