#include "validate.h"
#include "fz.h"
#include <numeric>
using namespace fz;
void fz::search() {
	for (i64 m = 1; m < 60; m++) for (i64 n = -130; n < 130; n++) {
		kase("multInv(%lld, %lld)", n, m);
		i64 r = multInv(n, m); bool ex = std::gcd(((n % m) + m) % m, m) == 1;
		if (!ex) CHECK(r == -1, "returned " + std::to_string(r)); else CHECK(0 <= r && r < m && ((i128)n * r % m + m) % m == 1 % m, "returned " + std::to_string(r));
	}
	while (more()) for (int it = 0; it < 2000; it++) {
		i64 n = pick(), m = pick(); if (rnd() % 4) m = pick(1, INT64_MAX);
		kase("multInv(%lld, %lld)", n, m);
		i64 r = 0; std::string o = outcome([&] { r = multInv(n, m); });
		if (m <= 0) { CHECK(o == "domain_error", o); continue; }
		CHECK(o == "ok", o);
		i64 a = (i64)(((i128)n % m + m) % m);
		if (std::gcd(a, m) != 1) CHECK(r == -1, "no inverse, returned " + std::to_string(r));
		else CHECK(0 <= r && r < m && (i128)a * r % m == 1 % m, "returned " + std::to_string(r));
	}
}
