#include <cstdint>
#include <stdexcept>
#include <sstream>
#include <string>
#include "visualizer_png.h"
using W = details::PNGWriter;
extern "C" {
void d_u8(W& w, std::uint8_t x) { w.writeU8(x); }
void d_write(W& w, const std::vector<std::vector<Color>>& c) { w.write(c); }
std::uint32_t& d_a(W& w) { return w.a; }
std::uint32_t& d_b(W& w) { return w.b; }
std::uint32_t& d_c(W& w) { return w.c; }
std::ofstream& d_os(W& w) { return w.os; }
}
