#include "validate.h"
#include "rng.h"
using namespace fz;
static void one(i64 n, i64 lo, i64 up) {
	kase("distinct(%lld, %lld, %lld)", n, lo, up); bool two = lo == 0 && rnd() % 2;
	std::vector<Integer> v; std::string o = outcome([&] { v = two ? Random::distinct(n, up) : Random::distinct(n, lo, up); });
	if (n < 0 || (__int128)lo + n > up) { CHECK(o == "invalid_argument", o); return; }
	CHECK(o == "ok", o); if (o != "ok") return;
	CHECK((i64)v.size() == n, "size " + std::to_string(v.size()));
	for (i64 x : v) CHECK(lo <= x && x < up, "out of range " + show(v));
	CHECK(std::set<Integer>(v.begin(), v.end()).size() == v.size(), "not distinct " + show(v));
}
void fz::search() {
	for (i64 up = 1; up <= 4; up++) for (i64 n = 0; n <= up; n++) {
		std::size_t k = 1; for (i64 i = 0; i < n; i++) k *= up - i;
		kase("distinct(%lld, -1, %lld)", n, up - 1); uniform("frequencies", k, [&] { return show(Random::distinct(n, -1, up - 1)); });
	}
	while (more()) for (int it = 0; it < 50; it++) {
		stir(); i64 n = rnd() % 12; if (rnd() % 20 == 0) n = rnd() % 500; if (rnd() % 9 == 0) n = -(i64)(rnd() % 5);
		i64 lo = rnd() % 3 ? uni(-10, 10) : pick(); if (rnd() % 4 == 0) lo = 0; if (lo > INT64_MAX - 2000) lo = INT64_MAX - 2000; if (lo < INT64_MIN + 10) lo = INT64_MIN + 10;
		i64 up = rnd() % 6 ? lo + n + uni(-2, 5) : pick(); one(n, lo, up);
	}
}
