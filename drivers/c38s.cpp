#include <cstdint>
#include <stdexcept>
#include <sstream>
#include "visualizer_svg.h"
using u8 = std::uint8_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
struct Q { u8 v[16]; };
static void put(Q& q, const Color& c, int i = 0) { q.v[i] = c.r; q.v[i + 1] = c.g; q.v[i + 2] = c.b; }
#define A u8 ar, u8 ag, u8 ab
#define B u8 br, u8 bg, u8 bb
extern "C" {
void s_rgb(Q& q, u32 v) { put(q, Color(v)); }
void s_none(Q& q) { put(q, Color()); }
void s_three(Q& q, A) { put(q, Color(ar, ag, ab)); }
u8 s_get(A, u64 i) { Color c(ar, ag, ab); u8& x = c[i]; return x; }
u8 s_getc(A, u64 i) { const Color c(ar, ag, ab); return c[i]; }
u8 s_getr(A, u64 i) { return std::move(static_cast<const Color&>(Color(ar, ag, ab)))[i]; }
void s_set(Q& q, A, u64 i, u8 v) { Color c(ar, ag, ab); c[i] = v; put(q, c); }
bool s_eq(A, B) { return Color(ar, ag, ab) == Color(br, bg, bb); }
bool s_ne(A, B) { return Color(ar, ag, ab) != Color(br, bg, bb); }
void s_add(Q& q, A, B) { put(q, Color(ar, ag, ab) + Color(br, bg, bb)); }
void s_sub(Q& q, A, B) { put(q, Color(ar, ag, ab) - Color(br, bg, bb)); }
void s_addto(Q& q, A, B) { Color c(ar, ag, ab); Color& d = c += Color(br, bg, bb); put(q, c); put(q, d, 4); }
void s_subto(Q& q, A, B) { Color c(ar, ag, ab); Color& d = c -= Color(br, bg, bb); put(q, c); put(q, d, 4); }
void s_mul(Q& q, A, Real f) { put(q, Color(ar, ag, ab) * f); }
void s_lmul(Q& q, A, Real f) { put(q, f * Color(ar, ag, ab)); }
void s_multo(Q& q, A, Real f) { Color c(ar, ag, ab); Color& d = c *= f; put(q, c); put(q, d, 4); }
void s_lerp(Q& q, A, B, Real f) { put(q, lerp(Color(ar, ag, ab), Color(br, bg, bb), f)); }
u8 s_clampd(double v) { return clamp_color(v); }
u8 s_clampi(int v) { return clamp_color(v); }
u8 s_clampll(long long v) { return clamp_color(v); }
}
extern "C" void s_gray(Q& q, u8 v) { put(q, Color(v)); }
