#include "validate.h"
#include "fz.h"
using namespace fz;
template<typename T> static void one(const std::vector<T>& v, T off, bool def = false) {
	kase("isPerm(%s of %zu-byte %s, %s)", show(v).c_str(), sizeof(T), std::is_signed_v<T> ? "signed" : "unsigned", def ? "-" : std::to_string(off).c_str());
	auto r = def ? isPerm(v) : rnd() % 2 ? isPerm(v, off) : isPerm(v.begin(), v.end(), off);
	if (def) off = 0;
	std::map<T, int> cnt; for (T x : v) cnt[x]++;
	auto in = [&](T x) { return x >= off && (i128)x - (i128)off < (i128)v.size(); };
	bool e = true; for (auto [x, c] : cnt) if (c > 1 || !in(x)) e = false;
	CHECK(bool(r) == e, e ? "returned false" : "returned true");
	CHECK(r.hasReason() == !e, "reason present/absent wrongly");
	if (r.hasReason()) { T x = *r.reason; CHECK(cnt.count(x) && (cnt[x] > 1 || !in(x)), "reported element " + std::to_string(x) + " is not at fault"); }
}
template<typename T> static void family() {
	std::size_t n = rnd() % 9; if (rnd() % 20 == 0) n = 60 + rnd() % 10;
	T off = (T)pick(); if (rnd() % 2) off = (T)(rnd() % 3); if (rnd() % 6 == 0) off = std::numeric_limits<T>::max() - (T)(rnd() % (n + 2)); if (rnd() % 6 == 0) off = std::numeric_limits<T>::min() + (T)(rnd() % 3);
	std::vector<T> v(n); for (std::size_t i = 0; i < n; i++) v[i] = (T)((UInteger)off + i);
	for (std::size_t i = n; i > 1; i--) std::swap(v[i - 1], v[rnd() % i]);
	if (n && rnd() % 2) for (std::size_t k = 1 + rnd() % 2; k--;) { T& x = v[rnd() % n]; switch (rnd() % 5) { case 0: x = v[rnd() % n]; break; case 1: x = (T)((UInteger)off - 1); break; case 2: x = (T)((UInteger)off + n); break; case 3: x = (T)pick(); break; default: x = (T)((UInteger)x + (1ull << (rnd() % 64))); } }
	one<T>(v, off); if (rnd() % 3 == 0) one<T>(v, 0, true);
}
static void two(const std::vector<Integer>& a, const std::vector<Integer>& b) {
	kase("isPerm(%s, %s)", show(a).c_str(), show(b).c_str());
	auto r = isPerm(a, b); auto x = a, y = b; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
	CHECK(bool(r) == (x == y), x == y ? "returned false" : "returned true");
	CHECK(!(r && r.hasReason()), "reason given for a rearrangement");
	if (!r && a.size() == b.size()) CHECK(r.hasReason(), "no reason given");
	if (r.hasReason()) CHECK(std::count(a.begin(), a.end(), *r.reason) > 0, "reason is no element of the first sequence");
}
void fz::search() {
	while (more()) for (int k = 0; k < 500; k++) {
		family<Integer>(); family<int>(); family<UInteger>(); family<unsigned>(); family<short>(); family<signed char>(); family<unsigned char>();
		std::vector<Integer> a(rnd() % 7), b; for (auto& x : a) x = rnd() % 4 ? (i64)(rnd() % 4) : pick(); b = a;
		for (std::size_t i = b.size(); i > 1; i--) std::swap(b[i - 1], b[rnd() % i]);
		if (rnd() % 2 && !b.empty()) b[rnd() % b.size()] = rnd() % 4; if (rnd() % 8 == 0) b.push_back(rnd() % 3); if (rnd() % 8 == 0 && !b.empty()) b.pop_back();
		two(a, b);
	}
}
