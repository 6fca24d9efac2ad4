#include "validate.h"
#include "fz.h"
#include "poly.h"
using namespace fz;
static const i64 B = 0x3FFFFFFF;
static std::vector<poly::P> make() {
	std::vector<poly::P> v; std::size_t n = rnd() % 9; i64 D = 1 + rnd() % 6;
	switch (rnd() % 6) {
		case 0: for (std::size_t i = 0; i < n; i++) v.push_back({(i64)(rnd() % D), (i64)(rnd() % D)}); break;
		case 1: case 2: { // points around the origin in angular order, possibly more than once around
			int turns = 1 + rnd() % 3 / 2; i64 R = rnd() % 3 ? 3 + rnd() % 20 : B; long double off = (rnd() % 1000) * 0.001L; n = 3 + rnd() % 7;
			for (std::size_t i = 0; i < n; i++) { long double a = off + 2 * 3.14159265358979L * turns * i / n; i64 r = R - (rnd() % 4 == 0 ? rnd() % 3 : 0); v.push_back({std::llround(r * cosl(a) * 0.999L), std::llround(r * sinl(a) * 0.999L)}); }
			if (rnd() % 4 == 0) v.insert(v.begin() + rnd() % v.size(), poly::P{0, 0});
			if (rnd() % 4 == 0) std::rotate(v.begin(), v.begin() + rnd() % v.size(), v.end());
			break; }
		case 3: { n = 3 + rnd() % 3; for (std::size_t i = 0; i < n; i++) v.push_back({(i64)(rnd() % 3), (i64)(rnd() % 3)}); auto w = v; v.insert(v.end(), w.begin(), w.end()); break; } // the same twice
		case 4: for (std::size_t i = 0; i < n; i++) v.push_back({rnd() % 2 ? B - (i64)(rnd() % 3) : -B + (i64)(rnd() % 3), rnd() % 2 ? B - (i64)(rnd() % 3) : -B + (i64)(rnd() % 3)}); break;
		case 5: { n = 3 + rnd() % 4; std::vector<poly::P> h; for (std::size_t i = 0; i < n; i++) { i64 x = (i64)i * 2 - (i64)n; v.push_back({x, x * x}); } if (rnd() % 2) { std::size_t j = rnd() % v.size(); v.push_back({(v[j].first + v.back().first) / 2, (v[j].second + v.back().second) / 2}); } break; }
	}
	if (rnd() % 12 == 0 && !v.empty()) { i64 x[] = {B + 1, -B - 1, INT64_MAX, INT64_MIN + 1, 1ll << 31}; auto& p = v[rnd() % v.size()]; (rnd() % 2 ? p.first : p.second) = x[rnd() % 5]; }
	return v;
}
void fz::search() {
	while (more()) for (int it = 0; it < 300; it++) {
		auto v = make(); std::string s = poly::str(v); bool big = false, r = false; for (auto& p : v) big |= p.first > B || p.first < -B || p.second > B || p.second < -B;
		auto run1 = [&](const char* what, auto f, auto want) {
			kase("%s %s", what, s.substr(0, 600).c_str());
			std::string o = outcome([&] { r = f(v); });
			if (big) { CHECK(o == "logic_error", o); return; }
			CHECK(o == "ok", o); if (o != "ok") return;
			bool w = want(v); CHECK(r == w, std::string("returned ") + (r ? "true" : "false"));
		};
		run1("isConvex", [](auto& p) { return bool(isConvex(p)); }, poly::convex);
		run1("isStrictlyConvex", [](auto& p) { return bool(isStrictlyConvex(p)); }, poly::strict);
		run1("isSimple", [](auto& p) { return bool(isSimple(p)); }, poly::simple);
		if (big || (poly::area2(v) < ((poly::i128)1 << 63) && poly::area2(v) >= -((poly::i128)1 << 63))) run1("isCCW", [](auto& p) { return bool(isCCW(p)); }, [](auto& p) { return p.size() >= 2 && poly::area2(p) > 0; });
		if (!big && v.size() >= 3) {
			auto &p = v[0], &a = v[1], &b = v[2]; kase("cross %s", s.substr(0, 600).c_str()); Integer c = cross(p, a, b), d = cross(a, b);
			CHECK((poly::i128)c == poly::cr(p, a, b), "returned " + std::to_string(c)); CHECK((poly::i128)d == poly::cr({0, 0}, a, b), "returned " + std::to_string(d));
		}
	}
	{ kase("isCCW of a spiral"); std::vector<poly::P> in; for (int k = 0; k < 4; k++) { Integer r = B - 10 * k; in.push_back({k ? -r - 10 : -r, -r}); in.push_back({r, -r}); in.push_back({r, r}); in.push_back({-r, r}); }
	  auto sh = [](Integer x) { return x < 0 ? x + 3 : x - 3; }; std::vector<poly::P> back(in.rbegin(), in.rend()); for (auto& p : back) p = {sh(p.first), sh(p.second)}; append(in, back);
	  CHECK(isCCW(in), "returned false"); std::reverse(in.begin(), in.end()); CHECK(!isCCW(in), "returned true"); CHECK(isSimple(in), "isSimple returned false"); }
}
