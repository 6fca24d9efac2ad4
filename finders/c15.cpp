#include "validate.h"
#include "rng.h"
using namespace fz;
void fz::search() {
	kase("multiple(2, -1, 2)"); uniform("multiple", 9, [] { return show(Random::multiple(2, -1, 2)); }, 2000);
	kase("increasing(2, -1, 3)"); uniform("increasing", 6, [] { return show(Random::increasing(2, -1, 3)); }, 2000);
	kase("decreasing(3, 5)"); uniform("decreasing", 10, [] { return show(Random::decreasing(3, 5)); }, 2000);
	kase("nonDecreasing(2, 3) as pairs"); { std::map<std::string, int> m; for (int i = 0; i < 18000; i++) m[show(Random::nonDecreasing(2, 3))]++; for (auto& [k, c] : m) { int e = k[1] == k[3] ? 2000 : 4000; CHECK(std::abs(c - e) < 400, k + " occurs " + std::to_string(c)); } CHECK(m.size() == 6, "outcomes"); }
	while (more()) for (int it = 0; it < 50; it++) {
		stir(); i64 n = rnd() % 10; if (rnd() % 20 == 0) n = rnd() % 600; int k = rnd() % 5; bool dist = k == 1 || k == 2; if (dist && rnd() % 9 == 0) n = -(i64)(rnd() % 5);
		i64 lo = rnd() % 3 ? uni(-10, 10) : pick(); if (rnd() % 4 == 0) lo = 0; if (lo > INT64_MAX - 2000) lo = INT64_MAX - 2000; if (lo < INT64_MIN + 10) lo = INT64_MIN + 10;
		i64 up = rnd() % 6 ? lo + (dist ? n : 1) + uni(-2, 5) : pick(); bool two = lo == 0 && rnd() % 2; const char* nm[] = {"multiple", "increasing", "decreasing", "nonDecreasing", "nonIncreasing"};
		kase("%s(%lld, %lld, %lld)", nm[k], n, lo, up); std::vector<Integer> v;
		#define R(f) v = two ? Random::f(n, up) : Random::f(n, lo, up)
		std::string o = outcome([&] { switch (k) { case 0: R(multiple); break; case 1: R(increasing); break; case 2: R(decreasing); break; case 3: R(nonDecreasing); break; default: R(nonIncreasing); } });
		bool bad = dist ? n < 0 || (__int128)lo + n > up : n > 0 && lo >= up;
		if (bad) { CHECK(o == "invalid_argument", o); continue; }
		CHECK(o == "ok", o); if (o != "ok") continue;
		CHECK((i64)v.size() == n, "size " + std::to_string(v.size())); for (i64 x : v) CHECK(lo <= x && x < up, "out of range " + show(v));
		for (std::size_t i = 1; i < v.size(); i++) { i64 a = v[i - 1], b = v[i]; CHECK(k == 0 || (k == 1 ? a < b : k == 2 ? a > b : k == 3 ? a <= b : a >= b), "not ordered " + show(v)); }
	}
}
