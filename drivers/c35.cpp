#include <bits/stdc++.h>
#include "secure_rng.h"
extern "C" {
std::uint64_t d_next(AES_RNG& r) { return r(); }
void d_seed(void* r, std::uint64_t seed) { new (r) AES_RNG(seed); }
void d_pair(void* r, const AES::Key& k, const AES::Block& iv) { new (r) AES_RNG(k, iv); }
std::uint64_t d_min() { return AES_RNG::min(); }
std::uint64_t d_max() { return AES_RNG::max(); }
}
static_assert(sizeof(AES_RNG) == 256 && offsetof(AES_RNG, aes) == 0 && offsetof(AES_RNG, iv) == 240 && std::is_same_v<AES_RNG::result_type, std::uint64_t>);
