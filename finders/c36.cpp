#define FZ_NOT_INITIALIZED
#include <cstdint>
#include <stdexcept>
#include <sstream>
#include <string>
#include <filesystem>
#include "visualizer_png.h"
#include "fz.h"
using namespace fz;
using S = std::string; using u32 = std::uint32_t;
static S be(u32 v) { S s; for (int k = 3; k >= 0; k--) s += char(v >> (8 * k) & 255); return s; }
static S chunk(S type, S data) { u32 c = ~0u; S t = type + data; for (unsigned char x : t) { c ^= x; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; } return be(data.size()) + t + be(~c); }
void fz::search() {
	char t[] = "c36_XXXXXX"; S dir = mkdtemp(t), f = dir + "/x.png";
	while (more()) {
		std::size_t w = 1 + rnd() % (rnd() % 8 ? 5 : 300), h = 1 + rnd() % (rnd() % 8 ? 5 : 70); if (rnd() % 60 == 0) w = 16383, h = 1 + rnd() % 3; else if (rnd() % 40 == 0) w = 1 + rnd() % 2, h = 60000 + rnd() % 10000;
		std::vector<std::vector<Color>> img(h, std::vector<Color>(w)); unsigned m = rnd() % 3; for (auto& r : img) for (auto& c : r) { c.r = m ? rnd() : 255; c.g = m ? rnd() : 255; c.b = m ? rnd() : 255; c.a = m == 1 ? rnd() : 255; }
		kase("image of %zux%zu pixels, first pixel (%d,%d,%d,%d)", w, h, img[0][0].r, img[0][0].g, img[0][0].b, img[0][0].a);
		{ details::PNGWriter p(f); p.write(img); }
		std::ifstream in(f, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); S got = ss.str();
		S raw, z = "\x78\x01"; u32 a = 1, b = 0;
		for (std::size_t y = 0; y < h; y++) { S r(1, '\0'); for (auto& c : img[h - 1 - y]) { r += char(c.r); r += char(c.g); r += char(c.b); r += char(c.a); } for (unsigned char x : r) a = (a + x) % 65521, b = (b + a) % 65521;
			z += char(y + 1 == h); z += char(r.size() & 255); z += char(r.size() >> 8); z += char(~r.size() & 255); z += char(~r.size() >> 8 & 255); z += r; }
		S want = S("\x89PNG\r\n\x1a\n", 8) + chunk("IHDR", be(w) + be(h) + S("\x08\x06\0\0\0", 5)) + chunk("IDAT", z + be(b << 16 | a)) + chunk("IEND", "");
		if (got != want) { std::size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; CHECK(false, "byte " + std::to_string(i) + " of the file is wrong (" + std::to_string(got.size()) + " instead of " + std::to_string(want.size()) + " bytes)"); }
	}
	std::error_code ec; std::filesystem::remove_all(dir, ec);
}
