#include "validate.h"
#include "rng.h"
using namespace fz;
static bool prime(i64 n) { if (n < 2) return false; for (i64 d = 2; d * d <= n && d < 2000000; d++) if (n % d == 0) return false; return true; }
void fz::search() {
	kase("prime(0, 30)"); uniform("prime", 10, [] { return std::to_string(Random::prime(0, 30)); }, 2000);
	kase("prime(12)"); uniform("prime", 5, [] { return std::to_string(Random::prime(12)); }, 2000);
	kase("prime(5, 24)"); uniform("prime", 7, [] { return std::to_string(Random::prime(5, 24)); }, 2000);
	while (more()) for (int it = 0; it < 50; it++) {
		stir(); i64 lo = rnd() % 2 ? uni(-5, 40) : rnd() % 2 ? uni(-5, 100000) : pick(0, 1ll << 40), up = lo + uni(-2, rnd() % 2 ? 4 : 60); bool one = rnd() % 6 == 0; if (one) lo = 0, up = uni(-1, 60);
		kase("prime(%lld, %lld)", lo, up); i64 r = 0; std::string o = outcome([&] { r = one ? Random::prime(up) : Random::prime(lo, up); });
		if (lo >= up) { CHECK(o == "invalid_argument", o); continue; }
		if (o == "ok") { CHECK(lo <= r && r < up, "out of range: " + std::to_string(r)); CHECK(prime(r), "not prime: " + std::to_string(r)); }
		else { CHECK(o == "domain_error", o); Random::seed(rnd()); bool any = false; if (up - lo <= 60) for (i64 i = lo; i < up; i++) any |= prime(i); if (any) { int ok = 0; for (int k = 0; k < 60 && !ok; k++) ok += outcome([&] { r = Random::prime(lo, up); }) == "ok"; CHECK(ok, "never finds the prime of the range"); } }
	}
}
