#include <cstdint>
#include <stdexcept>
#include <sstream>
#include <string>
#include "visualizer_png.h"
using V = std::vector<std::vector<Color>>;
template<BlendMode M> struct T {
	static void rect(PNG& p, Integer ax, Integer ay, Integer bx, Integer by, const Color& c, const Color& f) { p.fillRectangle<M>(Point(ax, ay), Point(bx, by), c, f); }
	static void rect1(PNG& p, Integer ax, Integer ay, Integer bx, Integer by, const Color& f) { p.fillRectangle<M>(Point(ax, ay), Point(bx, by), f); }
	static void line(PNG& p, Integer ax, Integer ay, Integer bx, Integer by, const Color& f) { p.drawLine<M>(Point(ax, ay), Point(bx, by), f); }
	static void flood(PNG& p, Integer ax, Integer ay, const Color& f) { p.floodFill<M>(Point(ax, ay), f); }
};
#define ALL(n, M) extern "C" { \
void rect##n(PNG& p, Integer ax, Integer ay, Integer bx, Integer by, const Color& c, const Color& f) { T<M>::rect(p, ax, ay, bx, by, c, f); } \
void rect1##n(PNG& p, Integer ax, Integer ay, Integer bx, Integer by, const Color& f) { T<M>::rect1(p, ax, ay, bx, by, f); } \
void line##n(PNG& p, Integer ax, Integer ay, Integer bx, Integer by, const Color& f) { T<M>::line(p, ax, ay, bx, by, f); } \
void flood##n(PNG& p, Integer ax, Integer ay, const Color& f) { T<M>::flood(p, ax, ay, f); } }
ALL(0, ASSIGN) ALL(1, BLEND) ALL(2, ADD) ALL(3, SUBTRACT)
extern "C" {
V& pixels(PNG& p) { return p.colors; }
void d_clear(PNG& p, Integer w, Integer h, const Color& f) { p.clear(w, h, f); }
void d_clear0(PNG& p, Integer w, Integer h) { p.clear(w, h); }
Integer d_width(const PNG& p) { return p.width(); }
Integer d_height(const PNG& p) { return p.height(); }
void d_get(const PNG& p, Integer x, Integer y, Color& r) { r = p(x, y); }
void d_set(PNG& p, Integer x, Integer y, const Color& c) { p(x, y) = c; }
void d_write(const PNG& p) { p.write(); }
void d_destroy(PNG& p) { p.~PNG(); }
}
