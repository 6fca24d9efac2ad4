#include <bits/stdc++.h>
#include "rng.h"
#include <cstring>
using A4 = std::array<std::uint64_t, 4>;
extern "C" {
std::uint64_t d_next(Xoshiro256ss& r) { return r(); }
void d_jump(Xoshiro256ss& r) { r.jump(); }
void d_seed(void* r, std::uint64_t seed) { new (r) Xoshiro256ss(seed); }
void d_array(void* r, const A4& s) { new (r) Xoshiro256ss(s); }
std::uint64_t d_min() { return Xoshiro256ss::min(); }
std::uint64_t d_max() { return Xoshiro256ss::max(); }
}
static_assert(sizeof(Xoshiro256ss) == 32 && std::is_same_v<Xoshiro256ss::result_type, std::uint64_t>);
