#include <cstdint>
#include <stdexcept>
#include <sstream>
#include "visualizer_png.h"
using u8 = std::uint8_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
struct Q { u8 v[16]; };
static void put(Q& q, const Color& c, int i = 0) { q.v[i] = c.r; q.v[i + 1] = c.g; q.v[i + 2] = c.b; q.v[i + 3] = c.a; }
#define A u8 ar, u8 ag, u8 ab, u8 aa
#define B u8 br, u8 bg, u8 bb, u8 ba
extern "C" {
void d_rgb(Q& q, u32 v) { put(q, Color(v)); }
void d_rgba(Q& q, u32 v, u8 a) { put(q, Color(v, a)); }
void d_none(Q& q) { put(q, Color()); }
void d_three(Q& q, A) { put(q, Color(ar, ag, ab)); }
void d_four(Q& q, A) { put(q, Color(ar, ag, ab, aa)); }
u8 d_get(A, u64 i) { Color c(ar, ag, ab, aa); u8& x = c[i]; return x; }
u8 d_getc(A, u64 i) { const Color c(ar, ag, ab, aa); return c[i]; }
u8 d_getr(A, u64 i) { return std::move(static_cast<const Color&>(Color(ar, ag, ab, aa)))[i]; }
void d_set(Q& q, A, u64 i, u8 v) { Color c(ar, ag, ab, aa); c[i] = v; put(q, c); }
bool d_eq(A, B) { return Color(ar, ag, ab, aa) == Color(br, bg, bb, ba); }
bool d_ne(A, B) { return Color(ar, ag, ab, aa) != Color(br, bg, bb, ba); }
void d_add(Q& q, A, B) { put(q, Color(ar, ag, ab, aa) + Color(br, bg, bb, ba)); }
void d_sub(Q& q, A, B) { put(q, Color(ar, ag, ab, aa) - Color(br, bg, bb, ba)); }
void d_addto(Q& q, A, B) { Color c(ar, ag, ab, aa); Color& d = c += Color(br, bg, bb, ba); put(q, c); put(q, d, 4); }
void d_subto(Q& q, A, B) { Color c(ar, ag, ab, aa); Color& d = c -= Color(br, bg, bb, ba); put(q, c); put(q, d, 4); }
void d_mul(Q& q, A, Real f) { put(q, Color(ar, ag, ab, aa) * f); }
void d_lmul(Q& q, A, Real f) { put(q, f * Color(ar, ag, ab, aa)); }
void d_multo(Q& q, A, Real f) { Color c(ar, ag, ab, aa); Color& d = c *= f; put(q, c); put(q, d, 4); }
void d_lerp(Q& q, A, B, Real f) { put(q, lerp(Color(ar, ag, ab, aa), Color(br, bg, bb, ba), f)); }
void d_blend(Q& q, A, B) { put(q, blend(Color(ar, ag, ab, aa), Color(br, bg, bb, ba))); }
void d_cassign(Q& q, A, B) { put(q, details::combine<ASSIGN>(Color(ar, ag, ab, aa), Color(br, bg, bb, ba))); }
void d_cblend(Q& q, A, B) { put(q, details::combine<BLEND>(Color(ar, ag, ab, aa), Color(br, bg, bb, ba))); }
void d_cadd(Q& q, A, B) { put(q, details::combine<ADD>(Color(ar, ag, ab, aa), Color(br, bg, bb, ba))); }
void d_csub(Q& q, A, B) { put(q, details::combine<SUBTRACT>(Color(ar, ag, ab, aa), Color(br, bg, bb, ba))); }
u8 d_clampd(double v) { return clamp_color(v); }
u8 d_clampi(int v) { return clamp_color(v); }
u8 d_clampll(long long v) { return clamp_color(v); }
}
