#include "validate.h"
#include "fz.h"
using namespace fz;
void fz::search() {
	while (more()) for (int it = 0; it < 500; it++) {
		i64 a = pick(), s = rnd() % 3 ? pick(-20, 20) : pick(), n = pick(-50, 300);
		i128 bb = (i128)a + (i128)s * n + (i128)(rnd() % 7) - 3;
		i64 b = bb > INT64_MAX ? INT64_MAX : bb < INT64_MIN ? INT64_MIN : (i64)bb;
		if (s == INT64_MIN) continue;
		i128 d = (i128)b - a; if (d < 0) d = -d; i128 w = s < 0 ? -(i128)s : s;
		if (s && d / w > 100000) continue;
		kase("range(%lld, %lld, %lld)", a, b, s);
		std::vector<Integer> r; std::string o = outcome([&] { r = range(a, b, s); });
		if (s == 0) { CHECK(o == "domain_error", o); continue; }
		CHECK(o == "ok", o);
		std::vector<Integer> e; for (i128 x = a; s > 0 ? x < b : x > b; x += s) e.push_back((i64)x);
		CHECK(r == e, "returned " + show(r).substr(0, 200));
		i64 u = pick(-5, 300); kase("range(%lld)", u);
		e.clear(); for (i64 x = 0; x < u; x++) e.push_back(x);
		CHECK(range(u) == e, "wrong elements");
		i64 lo = pick(); i64 hi = lo > INT64_MAX - 400 || lo < INT64_MIN + 400 ? lo : lo + pick(-3, 300);
		kase("thueMorse(%lld, %lld)", lo, hi);
		o = outcome([&] { r = thueMorse(lo, hi); });
		if (lo < 0 || hi <= lo) CHECK(o == "invalid_argument", o);
		else { CHECK(o == "ok", o); e.clear(); for (i64 x = lo; x < hi; x++) e.push_back(__builtin_popcountll(x) % 2); CHECK(r == e, "returned " + show(r).substr(0, 200)); }
		kase("thueMorse(%lld)", u);
		o = outcome([&] { r = thueMorse(u); });
		if (u <= 0) CHECK(o == "invalid_argument", o); else { e.clear(); for (i64 x = 0; x < u; x++) e.push_back(__builtin_popcountll(x) % 2); CHECK(r == e, "wrong elements"); }
	}
}
