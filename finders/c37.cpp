#define FZ_NOT_INITIALIZED
#include <cstdint>
#include <stdexcept>
#include <sstream>
#include <string>
#include <filesystem>
#include "visualizer_png.h"
#include "fz.h"
using namespace fz;
using V = std::vector<std::vector<Color>>;
static std::string diff(const V& g, const V& w) {
	if (g.size() != w.size()) return "number of rows " + std::to_string(g.size());
	for (std::size_t y = 0; y < g.size(); y++) { if (g[y].size() != w[y].size()) return "length of row " + std::to_string(y);
		for (std::size_t x = 0; x < g[y].size(); x++) if (g[y][x].r != w[y][x].r || g[y][x].g != w[y][x].g || g[y][x].b != w[y][x].b || g[y][x].a != w[y][x].a) return "pixel (" + std::to_string(x) + "," + std::to_string(y) + ") is (" + std::to_string(g[y][x].r) + "," + std::to_string(g[y][x].g) + "," + std::to_string(g[y][x].b) + "," + std::to_string(g[y][x].a) + ") instead of (" + std::to_string(w[y][x].r) + "," + std::to_string(w[y][x].g) + "," + std::to_string(w[y][x].b) + "," + std::to_string(w[y][x].a) + ")"; }
	return "";
}
static Color rc() { using u = std::uint8_t; static const u v[] = {0, 255, 128}; return rnd() % 2 ? Color(v[rnd() % 2], v[rnd() % 2], v[rnd() % 2], v[rnd() % 3]) : Color(u(rnd()), u(rnd()), u(rnd()), u(rnd())); }
template<BlendMode M> static void modes(const char* m) {
	long long w = 1 + rnd() % (rnd() % 4 ? 6 : 40), h = 1 + rnd() % (rnd() % 4 ? 6 : 40); if (rnd() % 6 == 0) w = 1; if (rnd() % 6 == 0) h = 1;
	PNG p; Color bg = rc(); p.clear(w, h, bg); V want(h, std::vector<Color>(w, bg)); std::string d = diff(p.colors, want); kase("clear(%lld, %lld)", w, h); CHECK(d.empty(), d); CHECK(p.width() == w && p.height() == h, "width() or height()");
	Color pal[3] = {rc(), rc(), rc()}; if (rnd() % 3 == 0) pal[1].a = pal[0].a + 1, pal[1].r = pal[0].r, pal[1].g = pal[0].g, pal[1].b = pal[0].b;
	if (rnd() % 4) for (long long y = 0; y < h; y++) for (long long x = 0; x < w; x++) { p(x, y) = pal[rnd() % (2 + rnd() % 2)]; want[y][x] = p.colors[y][x]; const PNG& q = p; Color c = q(x, y); CHECK(c == want[y][x], "operator()"); }
	for (int r = 0; r < 3; r++) {
		Integer ax = rnd() % w, ay = rnd() % h, bx = rnd() % w, by = rnd() % h; Color b = rc(), f = rnd() % 3 ? rc() : pal[rnd() % 3]; auto mix = [&](Integer x, Integer y, Color c) { want[y][x] = details::combine<M>(want[y][x], c); };
		switch (rnd() % 4) {
			case 0: case 1: { bool two = rnd() % 2; if (!two) b = f; kase("fillRectangle<%s>((%lld,%lld), (%lld,%lld)) in %lldx%lld", m, (long long)ax, (long long)ay, (long long)bx, (long long)by, w, h);
				for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) if (std::min(ax, bx) <= x && x <= std::max(ax, bx) && std::min(ay, by) <= y && y <= std::max(ay, by)) mix(x, y, x == ax || x == bx || y == ay || y == by ? b : f);
				if (two) p.fillRectangle<M>(Point(ax, ay), Point(bx, by), b, f); else p.fillRectangle<M>(Point(ax, ay), Point(bx, by), f); break; }
			case 2: { kase("drawLine<%s>((%lld,%lld), (%lld,%lld)) in %lldx%lld", m, (long long)ax, (long long)ay, (long long)bx, (long long)by, w, h); Integer dx = std::abs(bx - ax), dy = std::abs(by - ay), n = std::max(dx, dy), k = std::min(dx, dy), sx = bx < ax ? -1 : 1, sy = by < ay ? -1 : 1;
				for (Integer u = 0; u <= n; u++) { Integer v = n ? (2 * u * k + n) / (2 * n) : 0; dx >= dy ? mix(ax + sx * u, ay + sy * v, f) : mix(ax + sx * v, ay + sy * u, f); } p.drawLine<M>(Point(ax, ay), Point(bx, by), f); break; }
			case 3: { kase("floodFill<%s>((%lld,%lld)) in %lldx%lld", m, (long long)ax, (long long)ay, w, h); Color o = want[ay][ax]; auto eq = [](Color s, Color t) { return s.r == t.r && s.g == t.g && s.b == t.b && s.a == t.a; }; std::vector<std::vector<char>> in(h, std::vector<char>(w)); in[ay][ax] = 1;
				for (bool ch = true; ch;) { ch = false; for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) if (!in[y][x] && eq(want[y][x], o) && ((y && in[y - 1][x]) || (x && in[y][x - 1]) || (y + 1 < h && in[y + 1][x]) || (x + 1 < w && in[y][x + 1]))) in[y][x] = ch = true; }
				for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) if (in[y][x]) mix(x, y, f); p.floodFill<M>(Point(ax, ay), f); }
		}
		d = diff(p.colors, want); CHECK(d.empty(), d);
	}
}
void fz::search() {
	while (more()) {
		for (int i = 0; i < 200; i++) { modes<ASSIGN>("ASSIGN"); modes<BLEND>("BLEND"); modes<ADD>("ADD"); modes<SUBTRACT>("SUBTRACT"); }
		char t[] = "c37_XXXXXX"; std::string dir = mkdtemp(t); for (int k = 0; k < 4; k++) { Integer w = k % 2, h = k / 2; kase("file of an image with %lldx%lld pixels", (long long)w, (long long)h); { PNG p(dir + "/x.png"); p.clear(w, h); } CHECK(std::filesystem::exists(dir + "/x.png") == (w && h), "written exactly if there are pixels"); }
		std::error_code ec; std::filesystem::remove_all(dir, ec);
	}
}
