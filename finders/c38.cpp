#define FZ_NOT_INITIALIZED
#include <cstdint>
#include <stdexcept>
#include <sstream>
#include <optional>
#include <iomanip>
#include <iostream>
#include <cassert>
#include "visualizer_png.h"
namespace svg {
#include "visualizer_svg.h"
}
#include "fz.h"
using namespace fz;
using V = std::vector<long long>;
static V of(const Color& c) { return {c.r, c.g, c.b, c.a}; }
static V of(const svg::Color& c) { return {c.r, c.g, c.b}; }
static V cl(V v) { for (auto& x : v) x = std::max(0ll, std::min(255ll, x)); return v; }
static std::string str(const V& v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + " "; return s + ")"; }
static long long rd(long double x) { if (std::isnan(x)) return 0; if (x < -4) return -4; if (x > 1000) return 1000; long double r = std::floor(std::fabs(x)); if (std::fabs(x) - r >= 0.5L) r += 1; return x < 0 ? -(long long)r : (long long)r; }
static int byte() { static const int sp[] = {0, 1, 2, 127, 128, 254, 255}; return rnd() % 2 ? sp[rnd() % 7] : rnd() % 256; }
static std::string what;
static void same(const V& got, const V& want, const char* op) { if (got != want) CHECK(false, std::string(op) + " gives " + str(got) + " instead of " + str(want)); }
template<class C, class D> static void all(C a, C b, long double f, const D& mk, std::size_t i, int v, auto lrp) {
	V x = of(a), y = of(b); int n = x.size(); V s(n), d(n), m(n), l(n);
	for (int k = 0; k < n; k++) s[k] = x[k] + y[k], d[k] = x[k] - y[k], m[k] = rd(x[k] * f), l[k] = std::clamp(rd(x[k] * f), 0ll, 255ll) + std::clamp(rd(y[k] * (1 - f)), 0ll, 255ll);
	same(of(a + b), cl(s), "+"); same(of(a - b), cl(d), "-"); C c = a; C& r = c += b; same(of(c), cl(s), "+="); CHECK(&r == &c, "+= returns something else"); c = a; C& r2 = c -= b; same(of(c), cl(d), "-="); CHECK(&r2 == &c, "-= returns something else");
	if (!std::isnan(f)) { same(of(a * f), cl(m), "color * real"); same(of(f * a), cl(m), "real * color"); c = a; c *= f; same(of(c), cl(m), "*="); if (0 <= f && f <= 1) same(of(lrp(a, b, f)), cl(l), "lerp"); }
	bool e = x == y; CHECK((a == b) == e, "=="); CHECK((a != b) == !e, "!=");
	auto idx = [&](auto g) -> long long { try { return g(); } catch (const std::out_of_range&) { return -1; } };
	long long w = i < (std::size_t)n ? x[i] : -1; const C k = a; c = a;
	CHECK(idx([&] { return c[i]; }) == w, "[]"); CHECK(idx([&] { return k[i]; }) == w, "[] const"); CHECK(idx([&] { return mk(a)[i]; }) == w, "[] of a temporary");
	if (w >= 0) { c[i] = v; x[i] = v; same(of(c), x, "assignment through []"); }
}
void fz::search() {
	while (more()) for (int it = 0; it < 2000; it++) {
		int q[8]; for (int& x : q) x = byte(); if (rnd() % 4 == 0) for (int k = 0; k < 4; k++) q[k + 4] = q[k]; if (rnd() % 3 == 0) { int k = rnd() % 4; q[k + 4] = q[k]; }
		static const long double fs[] = {0, 1, 0.5L, -1, 2, 0.25L, 1.0L / 3, 1e16L, 256, 1 - 1e-18L, 1e-19L, 0.1L, -0.0L}; long double f = rnd() % 2 ? fs[rnd() % 13] : (long double)(rnd() % 1001) / 1000;
		std::size_t i = rnd() % 6 ? rnd() % 5 : rnd(); unsigned w = rnd(); int v = byte();
		kase("a = (%d,%d,%d,%d), b = (%d,%d,%d,%d), f = %La, index %zu, rgb %x, value %d", q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], f, i, w, v);
		using u8 = std::uint8_t; Color a{(u8)q[0], (u8)q[1], (u8)q[2], (u8)q[3]}, b{(u8)q[4], (u8)q[5], (u8)q[6], (u8)q[7]}; svg::Color sa{(u8)q[0], (u8)q[1], (u8)q[2]}, sb{(u8)q[4], (u8)q[5], (u8)q[6]};
		V rgb{w >> 16 & 255, w >> 8 & 255, w & 255}; same(of(svg::Color((std::uint32_t)w)), rgb, "svg Color(rgb)"); rgb.push_back(255); same(of(Color((std::uint32_t)w)), rgb, "Color(rgb)"); rgb[3] = v; same(of(Color((std::uint32_t)w, (u8)v)), rgb, "Color(rgb, a)");
		same(of(a), {q[0], q[1], q[2], q[3]}, "Color(r, g, b, a)"); same(of(Color((u8)q[0], (u8)q[1], (u8)q[2])), {q[0], q[1], q[2], 255}, "Color(r, g, b)"); same(of(Color()), {0, 0, 0, 255}, "Color()"); same(of(sa), {q[0], q[1], q[2]}, "svg Color(r, g, b)"); same(of(svg::Color((u8)v)), {v, v, v}, "svg Color(gray)"); same(of(svg::Color()), {0, 0, 0}, "svg Color()");
		all(a, b, f, [](const Color& c) { return std::move(c); }, i, v, [](auto& x, auto& y, long double g) { return lerp(x, y, g); }); all(sa, sb, f, [](const svg::Color& c) { return std::move(c); }, i, v, [](auto& x, auto& y, long double g) { return svg::lerp(x, y, g); });
		V bl; if (q[7] == 255) bl = of(b); else if (q[7] == 0) bl = of(a); else { int al = q[3] * (255 - q[7]) / 255, ar = q[7] + al; for (int k = 0; k < 3; k++) bl.push_back((q[k + 4] * q[7] + q[k] * al) / ar); bl.push_back(ar); }
		same(of(blend(a, b)), bl, "blend"); same(of(details::combine<BLEND>(a, b)), bl, "combine<BLEND>"); same(of(details::combine<ASSIGN>(a, b)), of(b), "combine<ASSIGN>");
		same(of(details::combine<ADD>(a, b)), of(a + b), "combine<ADD>"); same(of(details::combine<SUBTRACT>(a, b)), of(a - b), "combine<SUBTRACT>");
		long long L = pick(); CHECK(clamp_color((int)L) == std::clamp((int)L, 0, 255), "clamp_color(int)"); CHECK(clamp_color(L) == std::clamp(L, 0ll, 255ll), "clamp_color(long long)"); CHECK(svg::clamp_color((int)L) == std::clamp((int)L, 0, 255), "clamp_color(int)"); CHECK(svg::clamp_color(L) == std::clamp(L, 0ll, 255ll), "clamp_color(long long)");
		double dd = (double)(long long)(rnd() % 70000) / 128 - 100; CHECK(clamp_color(dd) == std::clamp(rd(dd), 0ll, 255ll), "clamp_color(double)"); CHECK(svg::clamp_color(dd) == std::clamp(rd(dd), 0ll, 255ll), "clamp_color(double)");
	}
}
