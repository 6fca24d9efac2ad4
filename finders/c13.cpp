#include "validate.h"
#include "rng.h"
using namespace fz;
void fz::search() {
	std::size_t f = 1;
	for (i64 n = 0; n <= 5; n++) {
		if (n) f *= n; kase("shuffle of %lld elements", n);
		uniform("shuffle", f, [&] { std::vector<Integer> v; for (i64 i = 0; i < n; i++) v.push_back(i * 10); Random::shuffle(v); return show(v); }, 3000);
		kase("shuffle of a string with %lld characters", n); uniform("shuffle", f, [&] { std::string s = std::string("abcdefg").substr(0, n); Random::shuffle(s); return s; }, 1000);
		kase("perm(%lld)", n); uniform("perm", f, [&] { return show(Random::perm(n)); }, 1000);
		kase("perm(%lld, -3)", n); uniform("perm", f, [&] { auto p = Random::perm(n, -3); CHECK(std::is_permutation(p.begin(), p.end(), range(-3, n - 3).begin()), "not a permutation"); return show(p); }, 500);
		if (n) { kase("rotate of %lld elements", n); uniform("rotate", n, [&] { std::vector<Integer> v, w; for (i64 i = 0; i < n; i++) v.push_back(i * 10); w = v; i64 r = Random::rotate(w); CHECK(0 <= r && r < n, "rotation out of range"); for (i64 i = 0; i < n; i++) CHECK(w[i] == v[(i + r) % n], "rotated by something else"); return show(w); }, 1000); }
	}
	kase("shuffle of a pair"); uniform("shuffle", 2, [&] { std::pair<Integer, Integer> p(3, 4); Random::shuffle(p); return std::to_string(p.first) + std::to_string(p.second); });
	kase("shuffle of a complex"); uniform("shuffle", 2, [&] { std::complex<double> p(3, 4); Random::shuffle(p); return std::to_string(p.real()) + std::to_string(p.imag()); });
	kase("rotate of nothing"); { std::vector<Integer> v; CHECK(outcome([&] { Random::rotate(v); }) == "invalid_argument", "no exception"); }
	kase("perm(-1)"); CHECK(outcome([&] { Random::perm(-1); }) == "invalid_argument", "no exception");
	while (more()) for (int it = 0; it < 50; it++) {
		stir(); i64 n = rnd() % 30 ? rnd() % 20 : rnd() % 2000, off = pick(); if (off > INT64_MAX - n) off = INT64_MAX - n;
		kase("perm(%lld, %lld)", n, off); auto p = Random::perm(n, off); std::vector<bool> seen(n); CHECK((i64)p.size() == n, "size");
		for (i64 x : p) { bool ok = x >= off && (u64)x - (u64)off < (u64)n && !seen[x - off]; CHECK(ok, "not a permutation " + show(p)); if (ok) seen[x - off] = true; }
		std::vector<Integer> v; for (i64 i = 0; i < n; i++) v.push_back(rnd() % 5); auto w = v; kase("shuffle(%s)", show(v).c_str()); Random::shuffle(v);
		auto a = v, b = w; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "not a rearrangement");
		if (n) { w = v; kase("rotate(%s)", show(v).c_str()); i64 r = Random::rotate(w); CHECK(0 <= r && r < n, "rotation out of range"); for (i64 i = 0; i < n; i++) CHECK(w[i] == v[(i + r) % n], "rotated by something else"); }
	}
}
