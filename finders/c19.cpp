#include "validate.h"
#include "rng.h"
using namespace fz;
void fz::search() {
	auto one = [](i64 n, i64 dim, bool all) {
		kase("nonCollinearPoints(%lld, %lld)", n, dim);
		std::vector<std::pair<Integer, Integer>> v; std::string o = outcome([&] { v = Random::nonCollinearPoints(n, dim); });
		if (n < 0 || dim <= n || dim > 0x1FFFFFFF) { CHECK(o == "invalid_argument", o); return; }
		if (dim == 1) { CHECK(o == "domain_error" || o == "ok", o); return; }
		if (o == "domain_error") { int ok = 0; for (int k = 0; k < 30 && !ok; k++) { Random::seed(rnd()); ok += outcome([&] { Random::nonCollinearPoints(n, dim); }) == "ok"; } CHECK(ok, "never succeeds"); return; }
		CHECK(o == "ok", o); CHECK((i64) v.size() == n, "size " + std::to_string(v.size()));
		for (auto& [x, y] : v) CHECK(-dim < x && x < dim && -dim < y && y < dim, "outside: " + std::to_string(x) + "," + std::to_string(y));
		auto tri = [&](std::size_t a, std::size_t b, std::size_t c) { __int128 r = (__int128)(v[b].first - v[a].first) * (v[c].second - v[a].second) - (__int128)(v[b].second - v[a].second) * (v[c].first - v[a].first); CHECK(r != 0, "collinear: " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c)); };
		if (all) { for (std::size_t a = 0; a < v.size(); a++) for (std::size_t b = 0; b < a; b++) for (std::size_t c = 0; c < b; c++) tri(a, b, c); }
		if (v.size() >= 2 && !all) { auto w = v; std::sort(w.begin(), w.end()); CHECK(std::adjacent_find(w.begin(), w.end()) == w.end(), "equal points"); }
	};
	while (more()) for (int it = 0; it < 60; it++) {
		stir(); int m = rnd() % 16; i64 dim = m < 8 ? uni(-1, 12) : m < 13 ? uni(2, 60) : m < 14 ? pick(60, 0x1FFFFFFF) : uni(0x1FFFFFFF - 3, 0x20000002), n = dim > 60 ? uni(0, 40) : rnd() % 2 ? dim - 1 - uni(0, 2) : uni(-1, dim + 1);
		one(n, dim, true);
	}
}
