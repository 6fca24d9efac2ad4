#include <bits/stdc++.h>

#include "validate.h"

#include "fz.h"
using namespace fz;
template<class F> static bool rejects(F f) { try { f(); } catch (const std::logic_error&) { return true; } return false; }
void fz::search() {
	details::initialized(true);
	while (more()) {
		int kind = rnd() % 3; Constraint c; std::string h = "Constraint c;"; int m = 1 + rnd() % 5;
		Integer lo = 0, up = 0, mn = 0, mx = 0; bool hl = false, hu = false; Real rlo = 0, rup = 0, rmn = 0, rmx = 0;
		for (int i = 0; i < m; i++) {
			Integer a = pick(), b = pick(), v = rnd() % 3 == 0 ? a : rnd() % 2 ? pick() : (Integer)((u64)b - 1); if (b == LLONG_MIN) b = 0;
			if (kind == 1) {
				Real x = (Real)(a % 100) / 4, y = (Real)(b % 100) / 4, z = rnd() % 3 == 0 ? x + 1e-7L : rnd() % 2 ? y * (1 - 1e-8L) : (Real)(v % 100) / 8;
				h += " c.log(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ");"; kase("%s", h.c_str()); c.log(x, y, z);
				auto eq = [](Real p, Real q) { return std::fabs(p - q) <= 1e-6L || std::fabs((p - q) / q) <= 1e-6L; };
				hl |= eq(z, x); hu |= eq(z, y); rlo = i ? std::min(rlo, x) : x; rup = i ? std::max(rup, y) : y; rmn = i ? std::min(rmn, z) : z; rmx = i ? std::max(rmx, z) : z;
				auto& q = std::get<2>(c.bound); CHECK(q.hadMin == hl && q.hadMax == hu && q.min == rmn && q.max == rmx && q.lower == rlo && q.upper == rup, "wrong summary");
			} else {
				std::vector<Integer> w; if (kind == 2) { v = rnd() % 9; w.resize(v); if (rnd() % 2) a = v; if (rnd() % 2) b = v + 1; }
				h += " c.log(" + std::to_string(a) + "," + std::to_string(b) + "," + (kind == 2 ? "vector of size " : "") + std::to_string(v) + ");"; kase("%s", h.c_str()); if (kind == 2) c.log(a, b, w); else c.log(a, b, v);
				hl |= v == a; hu |= v == b - 1; lo = i ? std::min(lo, a) : a; up = i ? std::max(up, b - 1) : b - 1; mn = i ? std::min(mn, v) : v; mx = i ? std::max(mx, v) : v;
				CHECK(c.bound.index() == 1, "wrong kind"); auto& q = std::get<1>(c.bound); CHECK(q.hadMin == hl && q.hadMax == hu && q.min == mn && q.max == mx && q.lower == lo && q.upper == up, "wrong summary");
			}
		}
		if (kind != 0) CHECK(rejects([&] { c.log(Integer(0), Integer(5), Integer(1)); }), "an integer is accepted by a constraint of another type");
		if (kind != 1) CHECK(rejects([&] { c.log(Real(0), Real(5), Real(1)); }), "a real is accepted by a constraint of another type");
		if (kind != 2) CHECK(rejects([&] { c.log(0, 5, std::vector<Integer>{}); }), "a container is accepted by a constraint of another type");
		CHECK(rejects([&] { c.log(0, 5, std::vector<Real>{}); }), "another container is accepted");
	}
}
