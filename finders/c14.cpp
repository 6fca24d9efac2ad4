#include "validate.h"
#include "rng.h"
using namespace fz;
static std::vector<i64> cycleType(const std::vector<Integer>& p, i64 off) { // empty entry -1: not a permutation
	std::vector<bool> seen(p.size()); for (i64 x : p) { if (x < off || (u64)x - (u64)off >= p.size() || seen[x - off]) return {-1}; seen[x - off] = true; }
	std::vector<i64> r; std::fill(seen.begin(), seen.end(), false);
	for (std::size_t i = 0; i < p.size(); i++) if (!seen[i]) { i64 l = 0; for (std::size_t x = i; !seen[x]; x = p[x] - off) { seen[x] = true; l++; } r.push_back(l); }
	std::sort(r.begin(), r.end()); return r;
}
static void fixcheck(i64 n, const std::vector<Integer>& fix, i64 off) {
	kase("perm(%lld, fixed %s, offset %lld)", n, show(fix).c_str(), off); bool bad = n < 0; for (i64 x : fix) if (n >= 0 && (x < off || (u64)x - (u64)off >= (u64)n)) bad = true;
	std::vector<Integer> p; auto o = outcome([&] { p = Random::perm(n, fix, off); });
	CHECK(o == (bad ? "invalid_argument" : "ok"), "outcome " + o); if (bad || o != "ok") return;
	CHECK((i64)p.size() == n, "wrong length"); CHECK(cycleType(p, off) != std::vector<i64>{-1}, "not a permutation: " + show(p)); for (i64 x : fix) CHECK(p[x - off] == x, std::to_string(x) + " is not fixed: " + show(p));
}
static void cyclecheck(const std::vector<Integer>& c, i64 off) {
	kase("perm(cycles %s, offset %lld)", show(c).c_str(), off); bool bad = false; i64 s = 0; for (i64 x : c) { if (x <= 0) bad = true; else s += x; }
	std::vector<Integer> p; auto o = outcome([&] { p = Random::perm(c, off); });
	CHECK(o == (bad ? "invalid_argument" : "ok"), "outcome " + o); if (bad || o != "ok") return;
	auto e = std::vector<i64>(c.begin(), c.end()); std::sort(e.begin(), e.end()); CHECK((i64)p.size() == s, "wrong length"); CHECK(cycleType(p, off) == e, "wrong cycle lengths: " + show(p));
}
void fz::search() {
	for (i64 n = -1; n <= 6; n++) for (i64 m = 0; n >= 0 && m < 1 << n; m++) { std::vector<Integer> f; for (i64 i = 0; i < n; i++) if (m >> i & 1) f.push_back(i + 5); fixcheck(n, f, 5); if (f.size() > 1) { f.push_back(f[0]); fixcheck(n, f, 5); } }
	fixcheck(-1, {}, 0); fixcheck(3, {3}, 0); fixcheck(3, {-1}, 0); fixcheck(0, {0}, 0); fixcheck(3, {5, 6, 7, 8}, 5); cyclecheck({}, 0); cyclecheck({0}, 0); cyclecheck({2, -1, 3}, 0); cyclecheck({3, 0}, 0);
	for (i64 a = 1; a <= 4; a++) for (i64 b = 0; b <= 3; b++) for (i64 c = 0; c <= 3; c++) { std::vector<Integer> v{a}; if (b) v.push_back(b); if (c) v.push_back(c); for (i64 off : {0, -2, 9}) cyclecheck(v, off); }
	for (auto [c, k] : std::vector<std::pair<std::vector<Integer>, int>>{{{3}, 2}, {{4}, 6}, {{1, 2}, 3}, {{2, 2}, 3}, {{1, 3}, 8}, {{3, 1}, 8}, {{1, 1, 2}, 6}, {{5}, 24}}) { kase("perm(cycles %s)", show(c).c_str()); uniform("permutation", k, [&] { return show(Random::perm(c)); }, 1500); }
	for (auto [n, f, k] : std::vector<std::tuple<i64, std::vector<Integer>, int>>{{3, {}, 6}, {4, {1}, 6}, {4, {0, 3}, 2}, {5, {4, 2}, 6}, {4, {0}, 6}, {4, {3}, 6}}) { kase("perm(%lld, fixed %s)", n, show(f).c_str()); uniform("permutation", k, [&] { return show(Random::perm(n, f)); }, 1500); }
	while (more()) for (int it = 0; it < 50; it++) {
		stir(); i64 n = rnd() % 30 ? rnd() % 12 : rnd() % 500, off = rnd() % 3 ? (i64)(rnd() % 20) - 10 : pick(); if (off > INT64_MAX - 100000) off = INT64_MAX - 100000;
		std::vector<Integer> f, c; for (u64 k = rnd() % 6; k--;) f.push_back(rnd() % 30 ? off + (n ? (i64)(rnd() % n) : 0) : pick()); fixcheck(n, f, off);
		for (u64 k = rnd() % 6; k--;) c.push_back(rnd() % 40 ? 1 + rnd() % (rnd() % 20 ? 6 : 200) : pick(-5, 100)); cyclecheck(c, off);
	}
}
