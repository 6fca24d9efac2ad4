#include "validate.h"
#include "fz.h"
using namespace fz;
template<typename R, typename P> static void adj(const char* nm, const std::vector<Integer>& v, const R& r, P viol, bool truth) {
	kase("%s(%s)", nm, show(v).c_str());
	std::size_t k = 0; for (std::size_t i = 1; i < v.size() && !k; i++) if (viol(v[i - 1], v[i])) k = i;
	CHECK(bool(r) == ((k != 0) == truth), bool(r) ? "returned true" : "returned false");
	CHECK(r.hasReason() == (k != 0), "position present/absent wrongly");
	if (r.hasReason() && k) CHECK(*r.reason == (Integer)k, "reported position " + std::to_string(*r.reason) + " instead of " + std::to_string(k));
}
void fz::search() {
	while (more()) for (int it = 0; it < 500; it++) {
		std::vector<Integer> v(rnd() % 8); i64 c = pick(); int mode = rnd() % 5;
		for (std::size_t i = 0; i < v.size(); i++) v[i] = mode == 0 ? pick() : mode == 1 ? (i64)(rnd() % 3) : mode == 2 ? (i64)i * 3 : mode == 3 ? -(i64)i : (i64)((u64)c + rnd() % 3);
		if (mode >= 2 && v.size() && rnd() % 2) v[rnd() % v.size()] = v[rnd() % v.size()];
		int kind = rnd() % 3; auto p = [&](Integer a, Integer b) { return kind == 0 ? a == b : kind == 1 ? a > b : (((u64)a * 31 + (u64)b) >> 1) % 4 == 0; };
		auto np = [&](Integer a, Integer b) { return !p(a, b); };
		adj("anyAdjacent", v, anyAdjacent(v, p), p, true); adj("noneAdjacent", v, noneAdjacent(v, p), p, false); adj("allAdjacent", v, allAdjacent(v, p), np, false);
		adj("areIncreasing", v, areIncreasing(v), [](Integer a, Integer b) { return a >= b; }, false);
		adj("areNonDecreasing", v, areNonDecreasing(v), [](Integer a, Integer b) { return a > b; }, false);
		adj("areDecreasing", v, areDecreasing(v), [](Integer a, Integer b) { return a <= b; }, false);
		adj("areNonIncreasing", v, areNonIncreasing(v), [](Integer a, Integer b) { return a < b; }, false);
		kase("areDistinct(%s)", show(v).c_str());
		auto r = areDistinct(v); bool d = std::set<Integer>(v.begin(), v.end()).size() == v.size();
		CHECK(bool(r) == d, d ? "returned false" : "returned true"); CHECK(r.hasReason() == !d, "element present/absent wrongly");
		if (r.hasReason()) CHECK(std::count(v.begin(), v.end(), *r.reason) > 1, "reported element " + std::to_string(*r.reason) + " does not occur twice");
	}
}
