// bounded stand-in for isSimple (and cross-check of the convexity theorem): every polygon of the stated sizes on small grids
#include "validate.h"
#include "poly.h"
#include <cstdio>
static long cases = 0;
static void check(const std::vector<poly::P>& v) {
	cases++;
	auto t = [&](const char* w, bool r, bool e) { if (r != e) { std::printf("FAIL %s %s: returned %s\n", w, poly::str(v).c_str(), r ? "true" : "false"); std::fflush(stdout); std::_Exit(1); } };
	t("isSimple", isSimple(v), poly::simple(v));
	t("isStrictlyConvex", isStrictlyConvex(v), poly::strict(v));
	t("isConvex", isConvex(v), poly::convex(v));
}
static void all(std::size_t n, Integer W, Integer H) {
	std::vector<int> d(n); std::vector<poly::P> v(n), w(n); const Integer B = 0x3FFFFFFF;
	while (true) {
		for (std::size_t i = 0; i < n; i++) { v[i] = {d[i] % W, d[i] / W}; w[i] = {-B + v[i].first * (2 * B / std::max<Integer>(1, W - 1)), -B + v[i].second * (2 * B / std::max<Integer>(1, H - 1)) - (v[i].first == 1 && v[i].second > 0)}; }
		check(v); if (cases % 8 == 0) check(w);
		std::size_t k = 0; while (k < n && ++d[k] == W * H) d[k++] = 0;
		if (k == n) break;
	}
}
int main(int argc, char** argv) {
	details::initialized(true);
	bool deep = argc > 1 && std::string(argv[1]) == "thorough";
	for (std::size_t n = 1; n <= 3; n++) all(n, 4, 4);
	all(4, 4, 4); all(5, 4, 4); all(6, 4, 3); all(7, 3, 3);
	if (deep) { all(5, 5, 5); all(6, 4, 4); all(7, 4, 3); }
	std::printf("CASES %ld\n", cases); std::fflush(stdout); std::_Exit(0);
}
