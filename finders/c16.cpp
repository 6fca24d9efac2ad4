#include "validate.h"
#include "rng.h"
using namespace fz;
void fz::search() {
	kase("partition(5, 3)"); uniform("partition", 6, [] { return show(Random::partition(5, 3)); }, 2000);
	kase("partition(3, 3, 0)"); uniform("partition", 10, [] { return show(Random::partition(3, 3, 0)); }, 2000);
	kase("partition(7, 2, 2)"); uniform("partition", 4, [] { return show(Random::partition(7, 2, 2)); }, 2000);
	while (more()) for (int it = 0; it < 50; it++) {
		stir(); i64 k = rnd() % 12, m = uni(-3, 6), n = rnd() % 3 ? uni(-2, 100) : pick(0, 1ll << 60); if (rnd() % 4 == 0) n = k * m + uni(-1, 2); if (rnd() % 3 == 0) m = 1; if (rnd() % 8 == 0) m = pick(-(1ll << 50), 1ll << 58); if (rnd() % 40 == 0) k = -1;
		if (rnd() % 9 == 0) k = rnd() % 300;
		kase("partition(%lld, %lld, %lld)", n, k, m); std::vector<Integer> v; std::string o = outcome([&] { v = m == 1 && rnd() % 2 ? Random::partition(n, k) : Random::partition(n, k, m); });
		if (n <= 0 || k <= 0 || (__int128)k * m > n) { CHECK(o == "invalid_argument", o); continue; }
		CHECK(o == "ok", o); if (o != "ok") continue;
		CHECK((i64)v.size() == k, "size"); __int128 s = 0; for (i64 x : v) { s += x; CHECK(x >= m, "part too small " + show(v)); } CHECK(s == n, "wrong sum " + show(v));
	}
}
